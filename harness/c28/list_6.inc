K1(LMIX, then_t, EnvS)
X1(LLOCE, sequence_a, EnvS)
X1(LAFF, upon_error_n, EnvS)
X1(LMIX2, variant_a, EnvS)
X2(LLOC, let_error_loc, when_any_1, EnvS)
X2(LMIX, let_value_loc, variant_a, EnvI)
XS(LAFF, bulk_n, upon_error_t, EnvS)
X2(LLOC, bulk_unchunked, upon_error_n, EnvS)
XS(LLOCE, then_n, bulk_n, EnvS)
XS(LLOCE, let_error_lv, let_value_lv, EnvS)
X1(LUNK, upon_stopped_n, EnvS)
XS(LV, when_all_unk, stop_when, EnvS)
K1(LMIX, continues_on, EnvU)
X2(LMIX, fork_join, let_value_t, EnvU)
X2(LTHR, bulk_t, unless_stop, EnvU)
XS(LLOCE, let_stopped_lv, on_closure, EnvS)
X1(LTHR, materialize, EnvS)
X1(LMIX2, when_all_v, EnvU)
X2(LMIX, then_n, when_any_2, EnvI)
X1(LMIX2, on_closure, EnvS)
X1(LLOC, reschedule, EnvS)
XS(LV, variant_a, demat, EnvS)
X1(LV, let_error_loc, EnvS)
XS(LMIX2, demat, sequence_b, EnvS)
XS(LAFF, when_any_1, reschedule, EnvS)
X2(LLOC, variant_a, upon_stopped_t, EnvI)
X2(LAFF, let_stopped_lv, then_v, EnvI)
XS(LVES, stopped_as_optional, when_any_2, EnvS)
X1(LLOCE, into_variant, EnvS)
XS(LUNK, then_v, finally_b, EnvS)
X1(LMIX, when_all_unk, EnvI)
X1(LTHR, when_any_2, EnvS)
X2(LLOC, let_error_lv, let_error_lv, EnvI)
K1(LLOC, let_stopped_unk, EnvU)
X1(LUNK, bulk_t, EnvU)
X2(LTHR, stopped_as_error, on_inl, EnvS)
XS(LVES, unless_stop, when_all_lv, EnvS)
X1(LVES, bulk_chunked, EnvU)
X2(LLOCE, stopped_as_error, sequence_b, EnvS)
XS(LUNK, let_stopped_lv, stopped_as_error, EnvS)
X2(LMIX2, reschedule, demat, EnvI)
X1(LLOCE, demat, EnvS)
X2(LV, let_value_lv, when_all_mix, EnvS)
X1(LLOC, demat, EnvS)
K1(LUNK, repeat_n, EnvI)
XS(LV, sequence_a, let_stopped_lv, EnvS)
XS(LV, upon_stopped_t, when_all_unk, EnvS)
X2(LTHR, write_env, bulk_t, EnvI)
X1(LAFF, stop_when, EnvI)
K1(LLOC, repeat_n, EnvI)
XS(LV, on, let_stopped_lv, EnvS)
XS(LMIX, let_value_loc, on_closure, EnvS)
XS(LLOCE, let_stopped_lv, unstoppable, EnvS)
X1(LV, bulk_unchunked, EnvS)
X1(LTHR, when_all_lv, EnvS)
XS(LMIX, when_all_unk, let_value_lv, EnvS)
X1(LVES, unstoppable, EnvS)
X2(LAFF, let_error_lv, stop_when, EnvS)
X1(LLOC, bulk_chunked, EnvS)
XS(LVES, stop_when, let_error_lv, EnvS)
X2(LUNK, repeat_n, on_inl, EnvS)
X1(LLOCE, upon_stopped_n, EnvS)
X2(LUNK, starts_on_inl, let_error_lv, EnvS)
X2(LV, upon_error_t, into_tuple, EnvS)
X1(LMIX, when_any_2, EnvS)
X1(LAFF, materialize, EnvS)
X2(LMIX2, repeat_until, when_all_lv, EnvI)
K1(LVES, sequence_a, EnvS)
X2(LLOCE, sequence_b, on_closure, EnvU)
X2(LUNK, when_any_2, on_inl, EnvS)
X2(LMIX2, on_closure, bulk_unchunked, EnvI)
K1(LLOCE, repeat_n, EnvS)
X1(LMIX2, when_all_lv, EnvS)
XS(LLOCE, variant_a, unless_stop, EnvS)
X1(LLOC, let_error_lv, EnvI)
X2(LV, materialize, sequence_a, EnvI)
X1(LMIX2, when_all_v, EnvS)
X2(LUNK, let_value_t, variant_a, EnvS)
XS(LV, when_all_unk, into_tuple, EnvS)
K1(LLOCE, starts_on, EnvS)
X1(LVES, when_all_lv, EnvS)
XS(LV, on, upon_error_n, EnvS)
XS(LMIX, when_all_lv, let_stopped_lv, EnvS)
XS(LLOC, upon_error_t, finally_b, EnvS)
XS(LUNK, on, materialize, EnvS)
X2(LTHR, when_all_unk, then_n, EnvU)
X2(LAFF, let_error_lv, when_all_v, EnvS)
X1(LVES, stopped_as_optional, EnvS)
X1(LVES, let_error_loc, EnvS)
X2(LVES, when_any_1, continues_on_inl, EnvS)
XS(LUNK, on_inl, then_n, EnvS)
X1(LTHR, into_tuple, EnvS)
XS(LVES, upon_stopped_t, let_stopped_unk, EnvS)
K1(LMIX, sequence_b, EnvS)
K1(LTHR, starts_on, EnvS)
X1(LV, bulk_n, EnvS)
XS(LLOCE, demat, when_all_1, EnvS)
K1(LAFF, when_all_mix, EnvU)
X1(LLOCE, bulk_chunked, EnvS)
X2(LUNK, on_inl, on, EnvS)
X2(LLOCE, into_tuple, when_all_mix, EnvU)
X1(LUNK, stopped_as_optional, EnvI)
XS(LVES, let_stopped_lv, unless_stop, EnvS)
XS(LV, upon_stopped_t, let_error_lv, EnvS)
XS(LMIX, stopped_as_error, stopped_as_optional, EnvS)
XS(LTHR, sequence_b, when_all_lv, EnvS)
X2(LAFF, let_error_lv, continues_on_inl, EnvS)
X2(LLOCE, bulk_chunked, unstoppable, EnvI)
X1(LLOCE, stopped_as_error, EnvS)
X2(LVES, write_env, starts_on, EnvS)
X2(LVES, then_v, starts_on, EnvS)
X1(LMIX, when_any_1, EnvS)
XS(LTHR, let_value_loc, bulk_unchunked, EnvS)
XS(LTHR, let_error_lv, write_env, EnvS)
K1(LMIX, continues_on_inl, EnvS)
XS(LUNK, upon_stopped_t, let_error_loc, EnvS)
X1(LMIX2, when_all_1, EnvS)
X2(LTHR, affine, then_n, EnvS)
K1(LMIX, when_all_mix, EnvS)
X1(LAFF, then_n, EnvS)
X2(LAFF, unless_stop, demat, EnvS)
X1(LTHR, bulk_chunked, EnvI)
XS(LV, bulk_n, then_n, EnvS)
X2(LLOC, on, into_variant, EnvS)
X1(LV, let_error_lv, EnvS)
X1(LMIX, unstoppable, EnvS)
XS(LAFF, let_value_lv, when_any_2, EnvS)
X1(LLOCE, let_value_lv, EnvU)
X2(LUNK, stopped_as_error, materialize, EnvS)
XS(LTHR, continues_on_inl, on, EnvS)
X2(LMIX2, upon_stopped_t, finally_a, EnvU)
X2(LLOCE, let_value_lv, when_all_v, EnvI)
X2(LAFF, unstoppable, continues_on_inl, EnvU)
X1(LUNK, into_tuple, EnvS)
X1(LUNK, on, EnvU)
X1(LMIX2, materialize, EnvS)
X2(LVES, let_stopped_unk, let_value_loc, EnvS)
X1(LAFF, upon_error_t, EnvU)
X1(LVES, demat, EnvS)
XS(LLOC, when_any_1, let_value_lv, EnvS)
X1(LVES, into_variant, EnvS)
X2(LV, reschedule, stop_when, EnvU)
X2(LMIX2, variant_a, when_all_v, EnvS)
XS(LLOC, upon_stopped_t, stop_when, EnvS)
X1(LMIX, let_value_loc, EnvS)
XS(LUNK, stop_when, when_all_mix, EnvS)
X2(LLOC, sequence_a, finally_b, EnvS)
X1(LTHR, sequence_b, EnvU)
X2(LLOCE, when_all_1, let_value_loc, EnvS)
X1(LMIX2, bulk_n, EnvS)
X1(LMIX, materialize, EnvU)
X1(LV, let_stopped_unk, EnvS)
XS(LTHR, write_env, when_all_lv, EnvS)
X1(LTHR, continues_on, EnvS)
X2(LUNK, repeat_n, on, EnvS)
X2(LLOC, into_tuple, then_t, EnvS)
X2(LTHR, let_value_loc, unstoppable, EnvS)
X1(LVES, finally_b, EnvU)
X2(LMIX, bulk_t, when_any_2, EnvS)
X1(LVES, upon_error_t, EnvS)
X2(LUNK, upon_stopped_n, let_stopped_unk, EnvS)
XS(LV, when_all_unk, unless_stop, EnvS)
X2(LTHR, continues_on_inl, into_tuple, EnvS)
K1(LUNK, sequence_b, EnvS)
X1(LAFF, write_env, EnvS)
K1(LLOC, let_stopped_unk, EnvS)
X1(LUNK, on_inl, EnvS)
X1(LUNK, on, EnvS)
K1(LMIX, repeat_until, EnvU)
X2(LTHR, sequence_a, repeat_n, EnvU)
XS(LV, on_inl, continues_on_inl, EnvS)
X2(LVES, let_stopped_lv, continues_on_inl, EnvS)
XS(LLOC, upon_stopped_t, let_value_t, EnvS)
K1(LMIX, on_closure, EnvS)
XS(LLOCE, variant_a, let_error_lv, EnvS)
X1(LLOCE, when_all_lv, EnvS)
X1(LTHR, on_closure, EnvS)
K1(LMIX, let_error_lv, EnvS)
X1(LUNK, reschedule, EnvS)
X1(LLOC, upon_error_n, EnvS)
X2(LMIX, starts_on_inl, when_all_mix, EnvS)
XS(LMIX2, when_all_unk, reschedule, EnvS)
X2(LMIX2, stop_when, starts_on, EnvU)
X2(LMIX, upon_error_n, on, EnvS)
X1(LTHR, when_all_mix, EnvS)
X1(LMIX, finally_a, EnvS)
