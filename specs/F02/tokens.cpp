// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-assume: std::shared_ptr and std::weak_ptr count their owners atomically (the harnesses run on one thread)
#include "vf.hpp"
#include "asioext/cancellation_token.hpp"
#include <new>
using asioext::cancellation_token;
using asioext::cancellation_token_source;

// A source with an arbitrary history, as far as it matters: it is in use or destroyed.
static void age(cancellation_token_source& s, bool& destroyed) {
  destroyed = false;
  if (vf_bool("destroyed")) { s.destroy(); destroyed = true; }
}
// what a step does to the tokens issued so far
static bool step(cancellation_token_source& s, bool& destroyed) {
  switch (vf_choose(6, "operation")) {
  case 0: vf_cover("cancel"); s.cancel(); if (destroyed) destroyed = cancellation_token(s).cancelled(); return true;  // whether cancelling revives is left open
  case 1: vf_cover("destroy"); s.destroy(); destroyed = true; return true;
  case 2: vf_cover("reset"); s.reset(); destroyed = false; return false;
  case 3: { vf_cover("token"); cancellation_token t(s); vf_assert(t.cancelled() == destroyed, "tokens of a destroyed source are cancelled from the start, others are not"); return false; }
  case 4: { vf_cover("moved"); cancellation_token_source o(std::move(s)); s = std::move(o); return false; }
  default: vf_cover("nothing"); return false;
  }
}
static void issue(const cancellation_token_source&, bool destroyed, bool& cancelled, const cancellation_token& t) {
  cancelled = destroyed;
  vf_assert(t.cancelled() == cancelled, "tokens of a destroyed source are cancelled from the start, others are not");
}

VF_HARNESS(one_step) {
  {
    cancellation_token_source s; bool d; age(s, d);
    cancellation_token t(s), u(t); bool c; issue(s, d, c, t);
    c |= step(s, d);
    vf_assert(t.cancelled() == c, "a token is cancelled exactly if its source was cancelled or destroyed since");
    vf_assert(u.cancelled() == c, "a copy is cancelled with its token");
    cancellation_token v(s);
    vf_assert(v.cancelled() == d, "tokens of a destroyed source are cancelled from the start, others are not");
    vf_assert(t.cancelled() == c, "issuing tokens does not change others");
  }
  vf_assert(vf_heap_live() == 0, "nothing is left behind");
}
// every history: the state of source and tokens is (destroyed, cancelled)
VF_HARNESS(history) {
  {
    cancellation_token_source s; bool d; age(s, d);
    cancellation_token t(s); bool c; issue(s, d, c, t);
    vf_assert(t.cancelled() == c, "a token is cancelled exactly if its source was cancelled or destroyed since");
    c |= step(s, d);
    vf_assert(t.cancelled() == c, "a token is cancelled exactly if its source was cancelled or destroyed since");
    cancellation_token u(s); bool e = d;
    vf_assert(u.cancelled() == e, "tokens of a destroyed source are cancelled from the start, others are not");
    const bool again = step(s, d);
    c |= again; e |= again;
    vf_assert(t.cancelled() == c && u.cancelled() == e, "a token is cancelled exactly if its source was cancelled or destroyed since");
    // cancelled for good
    step(s, d);
    if (c) vf_assert(t.cancelled(), "a cancelled token stays cancelled");
  }
  vf_assert(vf_heap_live() == 0, "nothing is left behind");
}
VF_HARNESS(token_assignment) {
  cancellation_token_source a, b; bool da, db; age(a, da); age(b, db);
  cancellation_token t(a); const cancellation_token u(b);
  t = u;
  vf_assert(t.cancelled() == db, "an assigned token belongs to the other source");
  bool x = da; bool c = step(a, x);
  vf_assert(t.cancelled() == db, "a token is independent of other sources");
  x = db; c = db | step(b, x);
  vf_assert(t.cancelled() == c && u.cancelled() == c, "a copy is cancelled with its token");
}
VF_HARNESS(independent) {
  cancellation_token_source a, b; bool da, db; age(a, da); age(b, db);
  cancellation_token t(a), u(b);
  bool c = da | step(a, da);
  vf_assert(t.cancelled() == c && u.cancelled() == db, "sources are independent of each other");
}
VF_HARNESS(moved) {
  {
    cancellation_token_source a; bool da; age(a, da);
    cancellation_token t(a);
    cancellation_token_source b(std::move(a));
    vf_assert(t.cancelled() == da, "moving a source cancels nothing");
    vf_assert(cancellation_token(a).cancelled(), "a moved-from source is destroyed");
    vf_assert(cancellation_token(b).cancelled() == da, "the target takes over the state of the source");
    if (vf_bool("reused")) { vf_cover("reused"); a.reset(); vf_assert(!cancellation_token(a).cancelled(), "a moved-from source can be reset"); }
    a.cancel();
    vf_assert(t.cancelled() == da, "tokens follow their source");
    const bool c = da | step(b, da);
    vf_assert(t.cancelled() == c, "tokens follow their source");
  }
  vf_assert(vf_heap_live() == 0, "nothing is left behind");
}
VF_HARNESS(move_assigned) {
  {
    cancellation_token_source a, b; bool da, db; age(a, da); age(b, db);
    cancellation_token t(a), u(b);
    b = std::move(a);
    vf_assert(t.cancelled() == da, "moving a source cancels nothing of it");
    vf_assert(u.cancelled(), "no token outlives the source that could cancel it uncancelled");
    vf_assert(cancellation_token(a).cancelled(), "a moved-from source is destroyed");
    vf_assert(cancellation_token(b).cancelled() == da, "the target takes over the state of the source");
    const bool c = da | step(b, da);
    vf_assert(t.cancelled() == c, "tokens follow their source");
  }
  vf_assert(vf_heap_live() == 0, "nothing is left behind");
}
VF_HARNESS(outlives) {
  {
    cancellation_token_source* s = new cancellation_token_source; bool d; age(*s, d);
    cancellation_token t(*s), u(t);
    bool c = d | step(*s, d);
    vf_assert(t.cancelled() == c, "a token is cancelled exactly if its source was cancelled or destroyed since");
    delete s;
    vf_assert(t.cancelled() && u.cancelled(), "tokens can be asked when their source is gone");
  }
  vf_assert(vf_heap_live() == 0, "nothing is left behind");
}
