#pragma once
#include "c28.hpp"
#include <exec/finally.hpp>
#include <exec/fork_join.hpp>
#include <exec/into_tuple.hpp>
#include <exec/just_from.hpp>
#include <exec/materialize.hpp>
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
#include <exec/reschedule.hpp>
#include <exec/sequence.hpp>
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/variant_sender.hpp>
#include <exec/when_any.hpp>
namespace c28 {
struct VB { template <class... A> bool operator()(A&&...) const { w->call(); return true; } };
AD(then_n, ex::then(std::move(s), VN{}))
AD(then_t, ex::then(std::move(s), VT{}))
AD(then_v, ex::then(std::move(s), VV{}))
AD(upon_error_n, ex::upon_error(std::move(s), VN{}))
AD(upon_error_t, ex::upon_error(std::move(s), VT{}))
AD(upon_stopped_n, ex::upon_stopped(std::move(s), VN{}))
AD(upon_stopped_t, ex::upon_stopped(std::move(s), VT{}))
AD(let_value_lv, ex::let_value(std::move(s), LF<LV>{}))
AD(let_value_loc, ex::let_value(std::move(s), LF<LLOC>{}))
AD(let_value_t, ex::let_value(std::move(s), LFT<LMIX>{}))
AD(let_error_lv, ex::let_error(std::move(s), LF<LVES>{}))
AD(let_error_loc, ex::let_error(std::move(s), LFT<LLOCE>{}))
AD(let_stopped_lv, ex::let_stopped(std::move(s), LF<LV>{}))
AD(let_stopped_unk, ex::let_stopped(std::move(s), LF<LUNK>{}))
AD(stopped_as_error, ex::stopped_as_error(std::move(s), Err(3)))
AD(stopped_as_optional, ex::stopped_as_optional(std::move(s)))
AD(into_variant, ex::into_variant(std::move(s)))
AD(write_env, ex::write_env(std::move(s), ex::prop{ex::get_stop_token, ex::never_stop_token{}}))
AD(unstoppable, ex::unstoppable(std::move(s)))
AD(starts_on, ex::starts_on(Ctx{3}, std::move(s)))
AD(starts_on_inl, ex::starts_on(ex::inline_scheduler{}, std::move(s)))
AD(continues_on, ex::continues_on(std::move(s), Ctx{3}))
AD(continues_on_inl, ex::continues_on(std::move(s), ex::inline_scheduler{}))
AD(on, ex::on(Ctx{3}, std::move(s)))
AD(on_inl, ex::on(ex::inline_scheduler{}, std::move(s)))
AD(on_closure, ex::on(std::move(s), Ctx{3}, ex::then(VT{})))
AD(affine, ex::affine(std::move(s)))
AD(bulk_n, ex::bulk(std::move(s), ex::par, 2, BN{}))
AD(bulk_t, ex::bulk(std::move(s), ex::par, 2, BT{}))
AD(bulk_chunked, ex::bulk_chunked(std::move(s), ex::par, 2, BC{}))
AD(bulk_unchunked, ex::bulk_unchunked(std::move(s), ex::par, 2, BT{}))
AD(when_all_1, ex::when_all(std::move(s)))
AD(when_all_lv, ex::when_all(std::move(s), LV{}))
AD(when_all_unk, ex::when_all(std::move(s), LUNK{}))
AD(when_all_mix, ex::when_all(LMIX{}, std::move(s)))
AD(when_all_v, ex::when_all_with_variant(std::move(s), LLOC{}))
AD(sequence_a, exec::sequence(ex::then(std::move(s), VV{}), LLOC{}))
AD(sequence_b, exec::sequence(LMIX2{}, std::move(s)))
AD(finally_a, exec::finally(std::move(s), LMIX2{}))
AD(finally_b, exec::finally(std::move(s), LUNV{}))
AD(repeat_n, exec::repeat_n(ex::then(std::move(s), VV{}), 2))
AD(repeat_until, exec::repeat_until(ex::then(std::move(s), VB{})))
AD(unless_stop, exec::unless_stop_requested(std::move(s)))
AD(when_any_1, exec::when_any(std::move(s)))
AD(when_any_2, exec::when_any(std::move(s), LLOC{}))
AD(fork_join, exec::fork_join(std::move(s), ex::then(VT{})))
AD(materialize, exec::materialize(std::move(s)))
AD(demat, exec::dematerialize(exec::materialize(std::move(s))))
AD(into_tuple, exec::into_tuple(std::move(s)))
AD(variant_a, exec::variant_sender<S, LMIX>{std::move(s)})
AD(reschedule, exec::reschedule(std::move(s)))
AD(split, exec::split(std::move(s)))
AD(ensure_started, exec::ensure_started(std::move(s)))
AD(stop_when, ex::__stop_when(std::move(s), ex::never_stop_token{}))
using ADS = TL<then_n, then_t, then_v, upon_error_n, upon_error_t, upon_stopped_n, upon_stopped_t, let_value_lv, let_value_loc, let_value_t, let_error_lv, let_error_loc, let_stopped_lv, let_stopped_unk, stopped_as_error, stopped_as_optional, into_variant, write_env, unstoppable, starts_on, starts_on_inl, continues_on, continues_on_inl, on, on_inl, on_closure, affine, bulk_n, bulk_t, bulk_chunked, bulk_unchunked, when_all_1, when_all_lv, when_all_unk, when_all_mix, when_all_v, sequence_a, sequence_b, finally_a, finally_b, repeat_n, repeat_until, unless_stop, when_any_1, when_any_2, fork_join, materialize, demat, into_tuple, variant_a, reschedule, stop_when>;
using LEAVES = TL<LV, LVES, LLOC, LLOCE, LMIX, LMIX2, LAFF, LUNK, LTHR>;
inline const char* LN[] = {"LV", "LVES", "LLOC", "LLOCE", "LMIX", "LMIX2", "LAFF", "LUNK", "LTHR"};
template <class T, int I> struct At; template <class H, class... T, int I> struct At<TL<H, T...>, I> : At<TL<T...>, I - 1> { }; template <class H, class... T> struct At<TL<H, T...>, 0> { using type = H; };
template <class T, int I> using At_t = typename At<T, I>::type;
inline constexpr int NA = 52, NL = 9;

// combinations the library rejects with a hard error
template <class Sigs> struct OneVal : std::false_type { }; 
template <class... S> struct Vals; template <class A, class... S> struct OneV;
template <class Sig> struct IsV : std::false_type { static constexpr bool nonempty = false; }; template <class... A> struct IsV<ex::set_value_t(A...)> : std::true_type { static constexpr bool nonempty = sizeof...(A) == 1; };
template <class... S> struct OneVal<ex::completion_signatures<S...>> : std::bool_constant<((IsV<S>::value + ... + 0) == 1) && (IsV<S>::nonempty || ...)> { };
template <class A, class S, class E> constexpr bool allowed() {
  if constexpr (std::same_as<A, stopped_as_optional>) return OneVal<ex::completion_signatures_of_t<S, E>>::value;
  else if constexpr (std::same_as<A, on_closure>) return requires (S& s, E e) { ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s), e); };
  else return true; }
template <class M, class A, class E> void add(const char* n) { add1<M1<M, A>, E>(n); }
template <class M> struct MSpy { static auto make() { return Spy<decltype(M::make())>{M::make()}; } };
}
// the lists are the expressions that compile (found once, by compiling each of them on its own)
#define X1(L, A, E) add<M0<L>, A, E>(#L "|" #A " (" #E ")");
#define X2(L, A, B, E) add<M1<M0<L>, A>, B, E>(#L "|" #A "|" #B " (" #E ")");
#define XS(L, A, B, E) add<MSpy<M1<M0<L>, A>>, B, E>(#L "|" #A "|spy|" #B " (" #E ")");
// expressions with a known finding (known_findings.txt), explored rarely
#define K1(...) to_known([] { X1(__VA_ARGS__) });
#define KS(...) to_known([] { XS(__VA_ARGS__) });
