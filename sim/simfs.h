// Simulated file system: system calls made by the code under test on paths
// below /simfs/ are caught (syscall user dispatch) and served from memory.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>
namespace simfs {
enum Kind {
  K_NONE = 0,
  K_ERR,        // the call fails with errno = arg
  K_SHORT,      // a read returns at most arg bytes
  K_EOF,        // a read returns 0
  K_SHRINK,     // before the call the file shrinks to arg bytes
  K_GROW,       // before the call arg bytes of junk are appended
  K_ZEROTAIL,   // before the call everything behind arg bytes reads as zero
  K_ERR_ON,     // this call and every one after it fails with errno = arg
  K_TRICKLE,    // from this call on reads return at most arg bytes
  K_NKINDS
};
struct Fault { int at; int kind; long arg; };   // at: 1-based index of the call
struct Log { int nr; long ret; int fired; };
extern std::vector<Log> log;                    // calls of the current window
extern const char* kind_name[];
bool init();                                    // false: not available here
void put(const std::string& path, const std::string& data);
void leftover(const std::string& data);         // an older version, found under any other name that contains tokenizer.json
void clear();
void begin(const std::vector<Fault>& f);        // start intercepting
void end();
int calls();
int fired(int kind);
int open_handles();                             // virtual descriptors not closed
int reads();
void reset_handles();
}
