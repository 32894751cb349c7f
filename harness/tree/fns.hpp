// user callables of the library adaptors
#pragma once
#include "tree.hpp"
namespace tr {
  struct FV : FnBase { using FnBase::FnBase; Val operator()(Val&& v) const { return Val(run(v.get())); } Val operator()(const Val& v) const { return Val(run(v.get())); } };
  struct FE : FnBase { using FnBase::FnBase; Val operator()(Err&& e) const { return Val(run(e.get())); } Val operator()(const Err& e) const { return Val(run(e.get())); } Val operator()(exception_ptr p) const { return Val(run(code_of(p))); } };
  struct FS : FnBase { using FnBase::FnBase; Val operator()() const { return Val(run(0)); } };
  struct FBool : FnBase { using FnBase::FnBase; bool operator()(Val&& v) const { int k = g->calls[n->id]; run(v.get()); return k + 1 >= n->n; } };
  struct FLong : FnBase { using FnBase::FnBase; Val operator()(long v) const { return Val(run(v)); } };
  // let_*: the argument stays alive while the second operation runs
  struct FLV : FnBase { using FnBase::FnBase; int kid = 1; AnyS operator()(Val& v) const { run(v.get()); return AnyS{n->kids[kid], Bound{&v.t}}; } };
  struct FLE : FnBase { using FnBase::FnBase; AnyS operator()(Err& v) const { run(v.get()); return AnyS{n->kids[1], Bound{&v.t}}; } AnyS operator()(exception_ptr& p) const { run(code_of(p)); return AnyS{n->kids[1], Bound{}}; } };
  struct FLS : FnBase { using FnBase::FnBase; AnyS operator()() const { run(0); return AnyS{n->kids[1], Bound{}}; } };
  struct FOpt : FnBase { using FnBase::FnBase; Val operator()(std::optional<Val>&& o) const { return Val(run(o ? o->get() : -1)); } };
  struct FVar : FnBase { using FnBase::FnBase; Val operator()(std::variant<std::tuple<Val>>&& o) const { return Val(run(std::get<0>(std::get<0>(o)).get())); } };
  struct FTup : FnBase { using FnBase::FnBase; Val operator()(std::tuple<Val>&& o) const { return Val(run(std::get<0>(o).get())); } };
  inline long vget(const Val& v) { return v.get(); }
  inline long vget(const std::variant<std::tuple<Val>>& v) { return std::get<0>(std::get<0>(v)).get(); }
  struct FAll : FnBase { using FnBase::FnBase; template <class... V> Val operator()(V&&... v) const { long h = 0; ((h = mixv(h, vget(v))), ...); return Val(run(h)); } };
  struct FMat : FnBase { using FnBase::FnBase;
    Val operator()(ex::set_value_t, Val&& v) const { return Val(run(v.get())); }
    Val operator()(ex::set_error_t, Err&& v) const { return Val(run(v.get() + 1)); }
    Val operator()(ex::set_error_t, exception_ptr p) const { return Val(run(code_of(p) + 2)); }
    Val operator()(ex::set_stopped_t) const { return Val(run(-3)); } };
  struct FBulk : FnBase { using FnBase::FnBase;
    void operator()(int i, Val& v) const { run(i * 1000 + v.get() % 1000); }
    void operator()(int b, int e, Val& v) const { run(b * 10000 + e * 1000 + v.get() % 1000); } };
  struct FJust : FnBase { using FnBase::FnBase; template <class K> auto operator()(K sink) const { return sink(Val(run(1))); } };
}
