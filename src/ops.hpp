// A table of library calls over fixed arguments, used by the history (C23), schedule (C24) and
// allocation-failure (C25) explorations.  Each operation returns its complete observable result.
#pragma once
#include <string>
namespace ops {
struct Op { const char* name; std::string (*fn)(); };
extern const Op table[];
extern const int count;
void init();                    // build the shared arguments
bool versioned(int op);         // does this call reach the code that differs between Unicode versions
bool heavy(int op);             // takes long
// many different arguments: the result of function `fam` on the i-th generated argument
extern const int families, variants, members;
extern const char* familyName(int fam);
std::string member(int fam, int variant, int i);
std::string args();             // the shared arguments, serialised (must never change)
extern char* (*scratch)();      // a buffer private to the calling thread (256 bytes), not part of the library's state
// called around every library call
extern void (*enter)();
extern void (*leave)();
}
