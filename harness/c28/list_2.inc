X1(LV, when_all_v, EnvS)
X1(LAFF, repeat_until, EnvI)
X2(LUNK, let_error_lv, then_n, EnvI)
X1(LVES, bulk_t, EnvS)
X2(LLOCE, unstoppable, upon_error_t, EnvU)
X1(LAFF, let_value_lv, EnvS)
X2(LLOC, continues_on, unstoppable, EnvS)
X2(LV, continues_on_inl, when_all_v, EnvS)
X1(LLOC, finally_a, EnvU)
X1(LAFF, when_any_1, EnvS)
X1(LLOCE, finally_a, EnvS)
XS(LAFF, when_all_lv, materialize, EnvS)
X2(LAFF, then_n, write_env, EnvS)
X2(LUNK, into_variant, when_all_v, EnvU)
X2(LV, bulk_chunked, on_inl, EnvU)
X1(LUNK, variant_a, EnvS)
K1(LMIX2, reschedule, EnvU)
X2(LV, then_v, stop_when, EnvS)
X1(LLOC, when_all_v, EnvS)
K1(LMIX2, unless_stop, EnvI)
XS(LV, let_value_lv, upon_stopped_t, EnvS)
X2(LLOCE, let_error_lv, on_closure, EnvS)
X2(LVES, upon_error_t, continues_on_inl, EnvS)
X1(LTHR, when_all_v, EnvS)
X1(LV, let_stopped_lv, EnvS)
X1(LLOCE, let_value_lv, EnvS)
X1(LMIX2, let_value_lv, EnvS)
K1(LMIX, on, EnvS)
XS(LVES, starts_on_inl, materialize, EnvS)
X1(LMIX2, let_stopped_lv, EnvI)
X2(LV, stopped_as_optional, sequence_b, EnvU)
XS(LUNK, bulk_chunked, into_tuple, EnvS)
X2(LTHR, sequence_a, then_n, EnvS)
X2(LMIX2, when_all_unk, on_inl, EnvS)
X2(LV, let_value_t, unstoppable, EnvI)
X2(LVES, when_all_unk, stopped_as_optional, EnvS)
X1(LLOCE, finally_b, EnvS)
X2(LLOCE, let_stopped_lv, stop_when, EnvS)
X2(LUNK, write_env, reschedule, EnvS)
X1(LUNK, finally_a, EnvU)
X1(LV, upon_stopped_t, EnvS)
X1(LMIX2, bulk_chunked, EnvS)
X1(LVES, bulk_unchunked, EnvS)
X1(LMIX, bulk_chunked, EnvS)
X2(LTHR, when_all_mix, let_stopped_lv, EnvS)
X2(LAFF, repeat_until, upon_error_n, EnvS)
X2(LLOC, into_variant, on, EnvS)
XS(LTHR, when_all_1, then_t, EnvS)
X1(LTHR, bulk_t, EnvS)
XS(LLOC, when_all_v, then_n, EnvS)
XS(LMIX2, when_all_mix, reschedule, EnvS)
X2(LLOC, then_t, then_n, EnvU)
XS(LAFF, when_any_1, then_v, EnvS)
X1(LV, when_all_lv, EnvI)
XS(LVES, variant_a, stopped_as_error, EnvS)
X1(LVES, let_value_lv, EnvS)
K1(LAFF, upon_stopped_t, EnvS)
K1(LMIX, upon_error_n, EnvI)
XS(LV, demat, repeat_until, EnvS)
X1(LVES, when_any_2, EnvU)
K1(LMIX, then_t, EnvU)
XS(LV, materialize, let_value_loc, EnvS)
X2(LMIX, continues_on_inl, when_any_2, EnvU)
K1(LMIX, on_inl, EnvS)
X1(LMIX2, write_env, EnvI)
XS(LUNK, then_t, bulk_t, EnvS)
XS(LLOC, then_n, reschedule, EnvS)
X1(LV, on_closure, EnvU)
X1(LAFF, when_any_2, EnvU)
XS(LVES, let_error_lv, bulk_unchunked, EnvS)
XS(LLOC, finally_b, finally_a, EnvS)
X2(LV, let_value_loc, let_error_lv, EnvU)
X2(LLOCE, let_value_lv, stopped_as_error, EnvS)
X2(LLOCE, write_env, when_any_1, EnvU)
XS(LTHR, when_all_1, starts_on_inl, EnvS)
XS(LLOCE, let_value_lv, let_value_t, EnvS)
K1(LVES, continues_on, EnvS)
X2(LLOC, repeat_n, continues_on, EnvI)
X2(LLOC, variant_a, when_all_mix, EnvI)
XS(LV, then_n, upon_stopped_n, EnvS)
X1(LLOCE, starts_on_inl, EnvS)
X2(LVES, materialize, continues_on, EnvS)
XS(LMIX, when_all_v, bulk_n, EnvS)
X1(LUNK, bulk_unchunked, EnvS)
XS(LLOC, let_value_loc, finally_a, EnvS)
XS(LMIX2, affine, starts_on, EnvS)
XS(LLOC, continues_on, then_t, EnvS)
X2(LAFF, let_value_t, starts_on_inl, EnvU)
XS(LUNK, unstoppable, let_value_lv, EnvS)
K1(LVES, on_inl, EnvU)
XS(LV, sequence_a, bulk_n, EnvS)
X2(LLOCE, when_all_mix, stopped_as_optional, EnvS)
XS(LLOCE, reschedule, stopped_as_optional, EnvS)
X1(LMIX, let_value_lv, EnvS)
XS(LLOC, into_variant, bulk_n, EnvS)
X1(LMIX, variant_a, EnvS)
X2(LLOCE, into_variant, let_error_lv, EnvI)
X2(LV, then_v, unless_stop, EnvS)
X2(LUNK, bulk_n, starts_on_inl, EnvS)
X1(LMIX, into_tuple, EnvI)
X2(LLOC, materialize, finally_a, EnvI)
X2(LLOC, upon_stopped_n, let_value_lv, EnvI)
X2(LLOC, repeat_until, finally_b, EnvS)
X1(LMIX, reschedule, EnvS)
X2(LTHR, bulk_chunked, stop_when, EnvS)
X2(LLOCE, repeat_n, variant_a, EnvS)
X1(LLOCE, stopped_as_error, EnvI)
X1(LAFF, upon_error_t, EnvS)
XS(LMIX2, on_closure, upon_error_n, EnvS)
X2(LLOCE, on_closure, let_error_lv, EnvS)
X1(LLOC, when_any_1, EnvU)
X2(LVES, unless_stop, then_t, EnvU)
XS(LLOCE, stop_when, into_tuple, EnvS)
XS(LVES, let_stopped_lv, when_all_mix, EnvS)
X1(LAFF, stop_when, EnvS)
X2(LLOCE, upon_error_n, starts_on_inl, EnvS)
X1(LTHR, let_error_loc, EnvS)
X1(LTHR, write_env, EnvS)
X2(LV, affine, repeat_n, EnvS)
X2(LMIX2, variant_a, on_inl, EnvS)
X2(LLOCE, continues_on_inl, when_all_unk, EnvS)
X1(LVES, repeat_until, EnvI)
X2(LLOC, let_error_loc, when_all_1, EnvS)
X1(LV, stop_when, EnvS)
X2(LTHR, starts_on, repeat_until, EnvU)
X2(LLOC, demat, then_t, EnvI)
X1(LLOCE, then_v, EnvU)
X1(LTHR, stopped_as_error, EnvS)
X1(LUNK, when_any_1, EnvU)
XS(LUNK, let_stopped_unk, finally_b, EnvS)
X1(LVES, affine, EnvI)
X2(LTHR, stopped_as_optional, materialize, EnvS)
X1(LVES, then_t, EnvS)
X1(LVES, upon_stopped_t, EnvS)
K1(LMIX, on, EnvI)
XS(LTHR, stopped_as_error, continues_on_inl, EnvS)
X1(LMIX, stop_when, EnvS)
X2(LLOCE, when_any_1, write_env, EnvS)
X2(LMIX2, then_n, finally_b, EnvU)
XS(LV, let_error_loc, sequence_b, EnvS)
K1(LTHR, let_stopped_unk, EnvS)
K1(LMIX2, reschedule, EnvS)
X1(LV, then_t, EnvS)
K1(LTHR, upon_stopped_t, EnvS)
X2(LMIX, starts_on, then_v, EnvS)
XS(LAFF, into_variant, finally_a, EnvS)
X2(LAFF, continues_on, upon_stopped_n, EnvS)
X2(LMIX2, starts_on_inl, into_tuple, EnvU)
X1(LUNK, when_all_v, EnvS)
X1(LAFF, starts_on, EnvU)
XS(LVES, let_error_loc, then_v, EnvS)
X2(LLOC, let_value_lv, sequence_a, EnvU)
X2(LV, when_all_v, demat, EnvI)
X2(LMIX2, when_all_unk, when_all_1, EnvS)
XS(LAFF, affine, when_all_1, EnvS)
X1(LMIX, into_variant, EnvU)
X1(LAFF, then_t, EnvI)
X1(LV, demat, EnvS)
X2(LLOC, into_variant, reschedule, EnvS)
X1(LMIX, starts_on, EnvS)
X1(LMIX, bulk_n, EnvS)
XS(LTHR, stopped_as_error, let_error_lv, EnvS)
X1(LV, continues_on_inl, EnvI)
X2(LLOC, variant_a, reschedule, EnvS)
X1(LLOCE, then_t, EnvS)
XS(LAFF, bulk_t, materialize, EnvS)
K1(LMIX2, fork_join, EnvU)
X2(LMIX, on, demat, EnvU)
XS(LVES, when_all_unk, upon_stopped_t, EnvS)
X2(LV, upon_stopped_n, when_all_1, EnvS)
X1(LAFF, finally_b, EnvS)
X1(LTHR, affine, EnvS)
X1(LV, then_n, EnvS)
X1(LVES, then_t, EnvI)
XS(LVES, repeat_n, then_v, EnvS)
K1(LTHR, repeat_until, EnvS)
X2(LTHR, continues_on, when_all_v, EnvS)
X1(LLOC, unstoppable, EnvU)
XS(LUNK, let_error_loc, into_tuple, EnvS)
XS(LTHR, on, on_inl, EnvS)
XS(LVES, upon_stopped_t, reschedule, EnvS)
K1(LLOC, unless_stop, EnvS)
X1(LTHR, upon_error_t, EnvI)
X1(LLOCE, let_error_loc, EnvS)
XS(LMIX2, stopped_as_error, variant_a, EnvS)
X1(LAFF, then_v, EnvS)
XS(LMIX, stop_when, bulk_chunked, EnvS)
X2(LAFF, affine, bulk_unchunked, EnvS)
X2(LTHR, stop_when, sequence_b, EnvI)
X1(LUNK, stopped_as_optional, EnvS)
XS(LUNK, stop_when, upon_error_n, EnvS)
XS(LMIX2, on_closure, finally_a, EnvS)
