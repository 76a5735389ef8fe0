// The reference: what each primitive means, from the BQN specification, on plain values. Errors are thrown as Err, and
// Unspec where the specification (or this implementation's documented configuration) leaves the result open.
#pragma once
#include "model.hpp"

namespace bq {
typedef std::function<Val(const Val&)> F1;
typedef std::function<Val(const Val&, const Val&)> F2;

// --- scalars
Val s1(const string& g, const Val& x);               // - | ⌊ ⌈ × ¬ ÷ √ ⋆ + and the names of •math
Val s2(const string& g, const Val& w, const Val& x); // + - × ÷ ⋆ √ ⌊ ⌈ | ∧ ∨ ¬ = ≠ < > ≤ ≥ log and •math
Val perv1(const F1& f, const Val& x);
Val perv2(const F2& f, const Val& w, const Val& x);
int cmpV(const Val& w, const Val& x);                // total order of •Cmp ⍋ ⍒ ∧ ∨
bool matchV(const Val& w, const Val& x);             // ≡ (a NaN matches nothing)
bool eqV(const Val& w, const Val& x);                // the equality of searches (a NaN equals itself)

// --- primitives by glyph
Val p1(const string& g, const Val& x);
Val p2(const string& g, const Val& w, const Val& x);

// --- modifiers on reference functions
Val each1(const F1& f, const Val& x);
Val each2(const F2& f, const Val& w, const Val& x);
Val table2(const F2& f, const Val& w, const Val& x);
Val fold1(const F2& f, const string& name, const Val& x); // name: the glyph for identities
Val fold2(const F2& f, const Val& w, const Val& x);
Val insert1(const F2& f, const string& name, const Val& x);
Val insert2(const F2& f, const Val& w, const Val& x);
Val scan1(const F2& f, const Val& x);
Val scan2(const F2& f, const Val& w, const Val& x);
Val rank1(const F1& f, long k, const Val& x);
Val rank2(const F2& f, long kw, long kx, const Val& w, const Val& x);
Val depth1(const F1& f, long k, const Val& x);
Val depth2(const F2& f, long kw, long kx, const Val& w, const Val& x);

// --- helpers
Val merge(const Val& x);      // >
Val cellOf(const Val& x, size_t i);
vector<Val> cells(const Val& x, size_t rank); // split into cells of the given rank
Val unitOf(const Val& x);     // <
Val asArr(const Val& x);      // atoms become units
bool isInt(const Val& x, double lo = -9007199254740992.0, double hi = 9007199254740992.0);
long depthV(const Val& x);
}
