// Text output under verification.  The stream is opaque to the verifier: its insertions have the contract "the characters, or the
// number, are appended"; natively it is a string stream whose text is printed.
#pragma once
#include <ostream>
#include <string>
#include <array>
#if defined(VF_IR)
extern "C" std::ostream *vf_stream(vf_out *o, long s);
extern "C" void vf_text(std::ostream *os, vf_out *o, long s);
#else
#include <sstream>
#include <cstdio>
inline std::ostream *vf_stream(vf_out *, long) { static std::ostringstream os; os.str(""); os.clear(); os.precision(17); return &os; }
inline void vf_text(std::ostream *os, vf_out *, long s) { printf("X %ld %s\n", s, static_cast<std::ostringstream *>(os)->str().c_str()); }
#endif
template<class F>
inline void vf_write(vf_out *o, long s, F const &f) { std::ostream *os = vf_stream(o, s); f(*os); vf_text(os, o, s); }
