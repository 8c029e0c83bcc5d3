// Data movement between raw arrays and library objects for the contract units.  No arithmetic here.
#pragma once
template <class T, class V> static inline void ld(V& v, const T* p, int n) { for (int i = 0; i < n; ++i) v[i] = p[i]; }
template <class T, class V> static inline void out(T* o, const V& v, int n) { for (int i = 0; i < n; ++i) o[i] = v[i]; }
// also reports the size through the return value
template <class T, class V> static inline int outn(T* o, const V& v) { int n = v.size(); for (int i = 0; i < n; ++i) o[i] = v[i]; return n; }
template <class T, class M> static inline void ldm(M& m, const T* p, int r, int c) { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = p[i * c + j]; }
template <class T, class M> static inline void outm(T* o, const M& m, int r, int c) { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) o[i * c + j] = m(i, j); }
template <class T, class Q> static inline void outq(T* o, const Q& q) { o[0] = q.w(); o[1] = q.x(); o[2] = q.y(); o[3] = q.z(); }
