// Contract harness interface.  The same harness is (a) executed symbolically by the verifier (intrinsics are
// interpreted), and (b) compiled with VF_RT and run on the real code to replay counterexamples and to run the
// bounded runtime-contract check.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
// inputs: universally quantified over [lo, hi]; _at variants are functions of an index
int vf_held(const void* mutex);        // is this pthread mutex held?
int vf_spin_held(const void* spinlock);
long vf_int(const char* label, long lo, long hi);
long vf_size(const char* label, long lo, long hi);   // as vf_int; the random runtime check favours small values
long vf_case(const char* label, long lo, long hi);   // as vf_int, one verified path per value
long vf_int_at(const char* label, long idx, long lo, long hi);
void vf_bytes(const char* label, const char** p, std::size_t* n);
void vf_text(const char* label, const char** p, std::size_t* n);    // bytes other than NUL
void vf_bytes_at(const char* label, long idx, const char** p, std::size_t* n);
// an array of n elements produced by a generator (n may be symbolic)
void* vf_array(std::size_t n, std::size_t stride, void (*gen)(void* ctx, std::size_t i, void* slot), void* ctx);
void vf_assume(int c);
void vf_check(int c, const char* name);
void vf_cover(const char* name);
// observed / expected ghost traces
void vf_ev(const char* tag, long a, long b, const char* p, std::size_t n);
void vf_ex(const char* tag, long a, long b, const char* p, std::size_t n);
// output bytes: adjacent ones are one run, however they were written
void vf_out(const char* p, std::size_t n);
void vf_xout(const char* p, std::size_t n);
// the std::ostream whose output is observed as runs of bytes and "flush" events; what goes to others is a "stray" event
void vf_stream(const void* ostream);
// 1 when all output since the last call happened in one critical section, of a lock shared with all earlier calls
int vf_atomic_output();
// notes that what the locks guard is used here, as output is
void vf_touch();
// from here on the object, and all that can be reached from it, is shared by threads: what is changed until vf_unshare is
// only used under a lock, the same every time (not checked natively)
void vf_share(const void* p);
void vf_unshare();
// natively, runs this before every lock is taken (the prover runs the contract of the lock instead)
void vf_on_lock(void (*f)());
void vf_trace_eq(const char* name);
// what was observed since the last comparison is of no interest
void vf_forget();
void vf_bytes_eq(const char* p, std::size_t pn, const char* q, std::size_t qn, const char* name);
int vf_symbolic();
// loop annotation: the innermost loop being run may take any number of iterations
void vf_generalise();
// uninterpreted spec functions shared by prover and runtime
}

template<class T, class F>
T* vf_make_array(std::size_t n, F f) {
    struct thunk { static void call(void* ctx, std::size_t i, void* slot) { (*static_cast<F*>(ctx))(i, slot); } };
    return static_cast<T*>(vf_array(n, sizeof(T), &thunk::call, &f));
}
