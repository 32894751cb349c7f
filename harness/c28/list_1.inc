X1(LLOCE, let_error_lv, EnvS)
X1(LTHR, when_all_1, EnvS)
X1(LVES, when_any_1, EnvS)
X2(LLOC, let_value_loc, let_value_loc, EnvS)
K1(LAFF, upon_stopped_t, EnvI)
XS(LUNK, bulk_n, write_env, EnvS)
X2(LMIX, affine, upon_stopped_n, EnvS)
X2(LV, when_all_mix, unless_stop, EnvS)
X1(LMIX, unless_stop, EnvS)
X2(LVES, starts_on_inl, unstoppable, EnvU)
X2(LVES, into_variant, when_all_unk, EnvS)
XS(LVES, bulk_chunked, then_v, EnvS)
X1(LV, let_error_lv, EnvU)
X1(LLOCE, when_all_v, EnvS)
X2(LUNK, when_any_2, then_v, EnvU)
X1(LAFF, into_tuple, EnvS)
X1(LV, starts_on_inl, EnvS)
X1(LTHR, write_env, EnvU)
K1(LAFF, when_all_mix, EnvS)
X1(LAFF, unless_stop, EnvS)
XS(LV, unless_stop, stopped_as_optional, EnvS)
X2(LTHR, bulk_n, when_any_2, EnvS)
X1(LMIX2, stopped_as_error, EnvS)
XS(LMIX, bulk_chunked, finally_a, EnvS)
XS(LTHR, unstoppable, reschedule, EnvS)
X1(LMIX2, when_any_2, EnvS)
X1(LLOC, when_any_1, EnvS)
X1(LAFF, then_t, EnvS)
XS(LVES, when_any_2, when_any_2, EnvS)
X2(LLOC, stopped_as_optional, upon_error_t, EnvS)
X2(LV, reschedule, when_any_1, EnvS)
X1(LLOCE, when_all_lv, EnvU)
X1(LLOC, materialize, EnvS)
X2(LTHR, then_v, sequence_b, EnvU)
X1(LUNK, stopped_as_error, EnvS)
X1(LUNK, when_any_1, EnvS)
X1(LV, starts_on_inl, EnvU)
X2(LUNK, let_value_lv, unstoppable, EnvS)
X2(LVES, unstoppable, then_v, EnvS)
XS(LVES, materialize, when_any_2, EnvS)
XS(LV, upon_error_t, bulk_t, EnvS)
XS(LLOCE, fork_join, finally_a, EnvS)
X1(LAFF, let_error_loc, EnvS)
X2(LMIX, when_all_unk, repeat_until, EnvU)
XS(LMIX, starts_on_inl, finally_b, EnvS)
XS(LMIX2, sequence_a, let_error_lv, EnvS)
XS(LV, starts_on_inl, on, EnvS)
XS(LAFF, stop_when, let_stopped_lv, EnvS)
XS(LLOCE, when_any_1, let_value_loc, EnvS)
XS(LV, write_env, unless_stop, EnvS)
X2(LTHR, upon_error_t, let_error_loc, EnvS)
K1(LAFF, sequence_b, EnvS)
X2(LV, into_tuple, reschedule, EnvU)
X1(LVES, variant_a, EnvS)
XS(LLOC, when_all_lv, into_variant, EnvS)
X2(LLOC, bulk_unchunked, when_all_1, EnvI)
X2(LV, repeat_n, into_variant, EnvS)
X1(LMIX2, unstoppable, EnvS)
X1(LVES, let_error_loc, EnvI)
X1(LAFF, let_stopped_lv, EnvS)
X2(LAFF, materialize, finally_b, EnvS)
X1(LVES, into_tuple, EnvS)
XS(LLOCE, upon_error_t, unstoppable, EnvS)
XS(LV, starts_on, bulk_chunked, EnvS)
XS(LLOCE, into_variant, upon_stopped_n, EnvS)
X2(LMIX, when_any_2, on, EnvS)
X1(LV, upon_stopped_n, EnvU)
X1(LMIX, when_all_v, EnvS)
XS(LAFF, let_value_loc, let_error_loc, EnvS)
X1(LVES, let_value_t, EnvU)
X1(LVES, fork_join, EnvS)
X1(LVES, when_all_1, EnvI)
XS(LTHR, write_env, then_v, EnvS)
X1(LTHR, sequence_a, EnvS)
K1(LMIX, stopped_as_optional, EnvS)
X1(LVES, let_value_loc, EnvS)
XS(LV, when_any_1, bulk_unchunked, EnvS)
K1(LUNK, repeat_until, EnvS)
X1(LVES, continues_on_inl, EnvS)
X2(LVES, into_tuple, then_n, EnvS)
X1(LLOCE, upon_stopped_t, EnvS)
X2(LVES, affine, bulk_chunked, EnvS)
XS(LMIX, starts_on_inl, write_env, EnvS)
X1(LAFF, demat, EnvS)
XS(LTHR, bulk_t, then_v, EnvS)
X1(LTHR, when_all_mix, EnvI)
X2(LAFF, when_any_2, let_value_t, EnvS)
K1(LLOCE, on, EnvS)
X1(LVES, reschedule, EnvS)
XS(LVES, fork_join, bulk_chunked, EnvS)
X2(LMIX, when_any_1, when_all_unk, EnvI)
XS(LUNK, starts_on_inl, stop_when, EnvS)
X1(LV, bulk_unchunked, EnvU)
XS(LLOC, finally_b, starts_on, EnvS)
X2(LUNK, upon_stopped_t, affine, EnvS)
XS(LAFF, unstoppable, repeat_until, EnvS)
XS(LLOCE, starts_on_inl, stopped_as_optional, EnvS)
X1(LMIX2, bulk_n, EnvI)
XS(LV, affine, when_any_2, EnvS)
X1(LV, let_value_lv, EnvI)
X2(LMIX2, on_closure, when_all_mix, EnvS)
XS(LLOCE, fork_join, when_all_mix, EnvS)
XS(LLOC, on_inl, when_all_unk, EnvS)
X2(LVES, finally_a, demat, EnvU)
X1(LMIX2, starts_on_inl, EnvS)
X2(LUNK, when_all_v, variant_a, EnvS)
X1(LMIX, let_value_t, EnvS)
K1(LMIX, sequence_a, EnvU)
XS(LAFF, let_value_t, upon_error_n, EnvS)
XS(LUNK, continues_on, let_error_lv, EnvS)
XS(LMIX2, when_all_1, when_any_2, EnvS)
X2(LAFF, let_value_t, finally_b, EnvS)
XS(LMIX2, when_all_mix, let_error_lv, EnvS)
X1(LUNK, bulk_chunked, EnvS)
X2(LUNK, finally_a, unless_stop, EnvU)
X1(LUNK, when_all_v, EnvI)
K1(LVES, continues_on, EnvI)
XS(LUNK, upon_error_n, demat, EnvS)
X2(LMIX2, starts_on, demat, EnvI)
X2(LAFF, when_any_2, reschedule, EnvS)
XS(LTHR, let_value_lv, let_stopped_lv, EnvS)
X2(LMIX2, unstoppable, bulk_chunked, EnvS)
XS(LLOC, starts_on_inl, then_v, EnvS)
XS(LMIX, let_error_loc, affine, EnvS)
X1(LVES, when_all_1, EnvS)
K1(LMIX2, let_stopped_unk, EnvS)
X1(LUNK, when_any_2, EnvS)
XS(LUNK, let_stopped_unk, when_all_1, EnvS)
X1(LTHR, then_v, EnvU)
X2(LUNK, let_value_loc, unless_stop, EnvS)
X1(LAFF, reschedule, EnvS)
K1(LVES, when_all_mix, EnvU)
XS(LLOC, when_all_unk, affine, EnvS)
XS(LV, on, continues_on_inl, EnvS)
X1(LUNK, write_env, EnvS)
XS(LLOCE, starts_on_inl, variant_a, EnvS)
X1(LTHR, then_v, EnvS)
XS(LVES, upon_stopped_n, starts_on, EnvS)
X2(LTHR, into_tuple, then_v, EnvS)
XS(LVES, reschedule, let_value_lv, EnvS)
X1(LAFF, when_all_1, EnvI)
X2(LAFF, into_tuple, continues_on, EnvS)
XS(LVES, upon_stopped_n, let_stopped_lv, EnvS)
X1(LMIX2, finally_a, EnvS)
XS(LLOCE, finally_b, when_all_1, EnvS)
X2(LMIX2, finally_a, let_value_t, EnvI)
XS(LV, stop_when, continues_on, EnvS)
X2(LAFF, stopped_as_error, upon_error_n, EnvS)
X2(LLOC, bulk_t, into_tuple, EnvS)
X1(LTHR, bulk_n, EnvS)
XS(LV, continues_on_inl, when_any_1, EnvS)
XS(LAFF, when_all_unk, variant_a, EnvS)
K1(LMIX2, bulk_t, EnvS)
X2(LMIX, unless_stop, write_env, EnvS)
XS(LMIX, materialize, stopped_as_error, EnvS)
X1(LV, write_env, EnvI)
XS(LLOC, into_variant, when_all_1, EnvS)
XS(LUNK, reschedule, bulk_t, EnvS)
K1(LTHR, let_value_t, EnvI)
XS(LTHR, bulk_n, on_closure, EnvS)
X2(LVES, reschedule, into_variant, EnvS)
X1(LLOC, upon_error_n, EnvU)
X1(LAFF, unstoppable, EnvS)
X2(LMIX, finally_b, when_any_2, EnvU)
X2(LUNK, let_value_loc, demat, EnvU)
X1(LVES, on_closure, EnvS)
X2(LTHR, when_all_v, upon_stopped_n, EnvS)
XS(LLOCE, bulk_unchunked, bulk_unchunked, EnvS)
X1(LTHR, let_value_loc, EnvS)
X2(LVES, let_value_loc, reschedule, EnvS)
XS(LTHR, let_value_lv, upon_error_t, EnvS)
X2(LUNK, let_stopped_unk, bulk_chunked, EnvS)
X1(LAFF, continues_on_inl, EnvS)
XS(LUNK, write_env, on_inl, EnvS)
X2(LAFF, let_value_lv, upon_error_n, EnvS)
K1(LAFF, upon_stopped_n, EnvS)
X1(LVES, let_value_t, EnvS)
X1(LMIX, when_all_1, EnvU)
XS(LVES, stopped_as_error, repeat_n, EnvS)
X2(LUNK, unstoppable, bulk_unchunked, EnvS)
X2(LTHR, demat, starts_on_inl, EnvS)
X1(LV, stopped_as_optional, EnvS)
X1(LV, on_inl, EnvS)
X1(LUNK, when_all_mix, EnvS)
XS(LMIX2, sequence_b, reschedule, EnvS)
K1(LLOCE, continues_on, EnvS)
X2(LUNK, materialize, when_any_1, EnvI)
X2(LVES, starts_on_inl, demat, EnvS)
X2(LLOCE, starts_on_inl, when_all_v, EnvS)
X1(LAFF, when_all_unk, EnvS)
