X1(LLOC, continues_on, EnvS)
K1(LMIX, fork_join, EnvS)
X2(LVES, when_all_v, on, EnvS)
XS(LV, starts_on_inl, unless_stop, EnvS)
X2(LVES, let_error_lv, stopped_as_error, EnvS)
XS(LLOC, let_value_loc, when_any_2, EnvS)
XS(LMIX2, into_variant, sequence_a, EnvS)
X2(LMIX2, starts_on_inl, when_all_lv, EnvI)
X1(LLOCE, when_all_mix, EnvI)
X2(LMIX, stopped_as_error, then_n, EnvU)
X2(LV, let_value_loc, sequence_a, EnvU)
K1(LMIX2, let_value_t, EnvS)
XS(LV, demat, continues_on, EnvS)
XS(LVES, when_all_v, starts_on, EnvS)
XS(LMIX, stopped_as_error, when_all_lv, EnvS)
XS(LUNK, into_variant, upon_stopped_t, EnvS)
X1(LUNK, let_value_t, EnvS)
X2(LTHR, when_all_1, continues_on, EnvI)
X1(LVES, unless_stop, EnvS)
X1(LLOCE, finally_b, EnvI)
X1(LUNK, upon_error_n, EnvS)
XS(LLOCE, let_error_loc, let_value_loc, EnvS)
XS(LUNK, when_all_v, write_env, EnvS)
X2(LVES, then_t, write_env, EnvS)
X1(LAFF, when_all_v, EnvS)
XS(LLOC, starts_on_inl, stopped_as_error, EnvS)
XS(LTHR, bulk_chunked, materialize, EnvS)
X1(LV, fork_join, EnvS)
XS(LLOC, continues_on, bulk_chunked, EnvS)
X2(LTHR, fork_join, bulk_unchunked, EnvS)
XS(LLOC, on_inl, on_inl, EnvS)
X1(LMIX2, when_all_unk, EnvS)
X1(LMIX, into_tuple, EnvS)
X2(LLOCE, bulk_unchunked, upon_stopped_n, EnvS)
X1(LUNK, when_all_unk, EnvS)
X1(LMIX, demat, EnvS)
XS(LMIX2, into_tuple, when_any_2, EnvS)
X2(LAFF, upon_error_t, upon_error_t, EnvS)
XS(LLOC, demat, let_value_loc, EnvS)
X1(LV, finally_a, EnvS)
X2(LAFF, unstoppable, bulk_n, EnvU)
X1(LLOCE, let_value_loc, EnvS)
X1(LAFF, let_stopped_unk, EnvS)
X1(LUNK, let_stopped_lv, EnvS)
XS(LV, continues_on_inl, reschedule, EnvS)
XS(LLOCE, variant_a, let_error_loc, EnvS)
X1(LLOC, write_env, EnvS)
X1(LTHR, let_error_lv, EnvS)
X2(LVES, upon_stopped_n, then_n, EnvS)
X2(LLOC, upon_error_n, sequence_a, EnvU)
XS(LMIX2, stop_when, demat, EnvS)
XS(LTHR, let_value_loc, then_v, EnvS)
XS(LTHR, bulk_t, bulk_chunked, EnvS)
X1(LV, when_all_lv, EnvS)
X2(LMIX2, let_error_lv, demat, EnvS)
X1(LVES, finally_b, EnvS)
X1(LLOC, bulk_unchunked, EnvS)
X2(LAFF, reschedule, repeat_until, EnvS)
X1(LUNK, upon_stopped_t, EnvS)
X2(LUNK, starts_on, into_tuple, EnvS)
X2(LV, when_all_lv, starts_on, EnvS)
X2(LMIX, when_all_unk, bulk_chunked, EnvS)
X2(LTHR, finally_a, let_stopped_unk, EnvS)
X1(LAFF, finally_a, EnvS)
XS(LMIX, when_all_v, then_t, EnvS)
K1(LLOCE, repeat_until, EnvS)
X1(LV, upon_error_t, EnvS)
X2(LV, reschedule, bulk_chunked, EnvS)
X1(LLOCE, when_any_2, EnvS)
X2(LLOC, into_variant, upon_error_n, EnvS)
K1(LMIX, upon_error_n, EnvS)
X2(LAFF, let_error_lv, into_tuple, EnvS)
XS(LV, upon_error_n, stop_when, EnvS)
XS(LLOCE, on_closure, when_all_1, EnvS)
X1(LLOC, then_n, EnvS)
K1(LTHR, unless_stop, EnvS)
K1(LMIX, upon_stopped_n, EnvS)
X2(LVES, upon_stopped_t, unstoppable, EnvS)
XS(LTHR, reschedule, when_all_v, EnvS)
XS(LLOC, let_error_loc, when_all_unk, EnvS)
X2(LTHR, upon_stopped_n, when_any_2, EnvI)
X1(LVES, then_v, EnvS)
X2(LV, write_env, write_env, EnvU)
K1(LMIX, sequence_a, EnvS)
X1(LVES, stop_when, EnvS)
XS(LLOC, on_inl, finally_b, EnvS)
X2(LV, stopped_as_optional, finally_a, EnvS)
X1(LVES, let_error_lv, EnvS)
X1(LUNK, bulk_t, EnvS)
X2(LTHR, when_all_lv, on_closure, EnvS)
XS(LLOC, when_all_lv, unstoppable, EnvS)
XS(LLOC, continues_on, reschedule, EnvS)
X2(LVES, let_value_t, materialize, EnvS)
X2(LAFF, write_env, bulk_n, EnvS)
XS(LTHR, when_any_2, into_tuple, EnvS)
XS(LMIX, affine, upon_stopped_t, EnvS)
X1(LAFF, stopped_as_error, EnvS)
XS(LVES, continues_on_inl, upon_stopped_t, EnvS)
X2(LVES, upon_error_n, when_any_2, EnvS)
X2(LMIX2, when_any_2, when_all_v, EnvU)
X1(LLOC, then_v, EnvS)
XS(LLOCE, let_value_lv, demat, EnvS)
K1(LVES, when_all_mix, EnvS)
XS(LMIX, when_any_2, let_value_lv, EnvS)
X2(LLOCE, bulk_n, upon_stopped_n, EnvI)
X2(LMIX, when_all_unk, continues_on, EnvS)
X1(LV, stopped_as_optional, EnvU)
X1(LLOC, affine, EnvS)
X2(LLOC, bulk_n, when_all_v, EnvS)
XS(LTHR, starts_on_inl, when_all_unk, EnvS)
XS(LUNK, let_stopped_unk, into_tuple, EnvS)
X1(LVES, bulk_n, EnvS)
X1(LV, reschedule, EnvU)
X2(LV, upon_stopped_n, continues_on_inl, EnvS)
X2(LLOCE, fork_join, variant_a, EnvI)
X2(LLOCE, bulk_chunked, affine, EnvS)
XS(LMIX2, stop_when, write_env, EnvS)
X2(LTHR, finally_a, stop_when, EnvS)
XS(LLOCE, stop_when, finally_a, EnvS)
K1(LMIX2, repeat_until, EnvS)
K1(LLOCE, on_inl, EnvI)
XS(LLOC, into_tuple, unstoppable, EnvS)
XS(LLOC, finally_a, unstoppable, EnvS)
X1(LV, unless_stop, EnvI)
X2(LLOCE, stop_when, variant_a, EnvS)
X1(LVES, starts_on_inl, EnvS)
X2(LVES, repeat_until, stopped_as_error, EnvU)
X1(LTHR, reschedule, EnvS)
X1(LLOCE, bulk_n, EnvU)
XS(LUNK, upon_error_t, reschedule, EnvS)
X2(LMIX2, finally_a, reschedule, EnvI)
XS(LLOC, into_tuple, demat, EnvS)
XS(LLOCE, then_v, write_env, EnvS)
X1(LAFF, bulk_n, EnvS)
X1(LV, sequence_a, EnvS)
XS(LMIX, when_any_1, let_stopped_unk, EnvS)
X1(LMIX2, sequence_b, EnvI)
X1(LVES, when_any_2, EnvS)
XS(LV, into_variant, then_n, EnvS)
K1(LMIX2, upon_error_t, EnvS)
XS(LLOCE, into_tuple, when_all_lv, EnvS)
K1(LLOCE, let_stopped_unk, EnvS)
X1(LMIX2, let_error_lv, EnvS)
X2(LV, when_any_2, bulk_n, EnvS)
X1(LUNK, upon_stopped_n, EnvI)
X2(LTHR, bulk_t, when_all_mix, EnvS)
X1(LLOCE, upon_error_t, EnvI)
X1(LTHR, demat, EnvU)
XS(LLOC, sequence_a, when_all_v, EnvS)
K1(LAFF, sequence_a, EnvS)
XS(LVES, when_any_2, let_stopped_unk, EnvS)
XS(LAFF, let_error_lv, let_value_t, EnvS)
X2(LUNK, let_stopped_lv, on_inl, EnvS)
X2(LV, bulk_n, then_t, EnvS)
XS(LTHR, when_all_1, when_all_unk, EnvS)
XS(LUNK, stopped_as_error, finally_a, EnvS)
X2(LV, when_all_mix, into_tuple, EnvS)
X1(LMIX2, let_value_lv, EnvI)
X1(LTHR, when_all_lv, EnvU)
X1(LUNK, unless_stop, EnvS)
X1(LTHR, variant_a, EnvS)
X1(LVES, write_env, EnvS)
X2(LV, let_value_t, let_error_loc, EnvU)
X1(LMIX2, sequence_b, EnvS)
XS(LLOCE, bulk_t, when_all_unk, EnvS)
X1(LMIX2, into_variant, EnvS)
X1(LTHR, fork_join, EnvS)
X1(LMIX2, write_env, EnvS)
K1(LMIX2, continues_on, EnvS)
XS(LLOC, when_all_mix, upon_error_t, EnvS)
XS(LMIX, into_tuple, starts_on, EnvS)
XS(LV, stop_when, bulk_t, EnvS)
X2(LTHR, let_value_lv, on, EnvS)
X1(LLOCE, unstoppable, EnvS)
X1(LMIX2, then_n, EnvU)
X2(LAFF, let_value_lv, unless_stop, EnvS)
X2(LVES, materialize, starts_on_inl, EnvS)
XS(LUNK, when_all_unk, bulk_n, EnvS)
K1(LAFF, stopped_as_optional, EnvS)
XS(LUNK, finally_a, when_all_mix, EnvS)
XS(LUNK, upon_stopped_t, bulk_unchunked, EnvS)
X2(LV, sequence_a, into_variant, EnvS)
