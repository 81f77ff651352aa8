// Analysis intrinsics: understood by the abstract interpreter, never executed.
#ifndef VF_H
#define VF_H
#include <cstddef>
#include <cstdint>
#include <string>
extern "C" {
long vf_int(long lo, long hi);                 // any integer in [lo, hi]
bool vf_bool();                                // either truth value (separate states)
int vf_choice(int n);                          // one of 0..n-1 (separate states)
bool vf_anybool();                             // an undetermined truth value (one state)
void vf_assume(bool);
void vf_note(const char *);
void vf_notev(const char *, long);
void vf_assert(bool, const char *rule, const char *msg);
void vf_always(bool, const char *rule, const char *msg);      // every run of the driver comes here
void vf_string(std::string *);                 // any content
void vf_string_n(std::string *, long n);       // any content of length n
void vf_string_no(std::string *, const char *chars, long n); // any content without chars (n<0: any length)
void vf_string_of(std::string *, const char *chars, long n); // only these characters (n<0: any length)
void vf_string_token(std::string *);
void *vf_alloc(long n);                        // buffer of n bytes of unknown content
void vf_free(void *);
void vf_fill(void *, long n);
void vf_copy_stream(void *dst, int sid, long off, long n);
void vf_stream_is(const void *p, int sid, long off, long n, const char *rule, const char *msg);
void vf_same_bytes(const void *p, const void *q, long n, const char *rule, const char *msg);
void vf_same_str(const std::string *, const std::string *, const char *rule, const char *msg);
void vf_be(const void *p, int n, long v, const char *rule, const char *msg);
void vf_le(const void *p, int n, long v, const char *rule, const char *msg);
void vf_limit(long n, const char *rule, const char *msg);
void vf_require_lower(void *, const char *rule, const char *msg);
void vf_dump(const void *);
bool vf_is_lossy();
bool vf_known(long);
bool vf_string_known(const std::string *);
void vf_stop();
long vf_vararg(int k);                         // k-th variadic argument of the enclosing function
void vf_leak_begin();
void vf_leak_end(const char *rule, const char *msg);
}
#endif
