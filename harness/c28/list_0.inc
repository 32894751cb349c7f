X1(LUNK, let_stopped_unk, EnvS)
X1(LMIX, write_env, EnvS)
XS(LV, let_stopped_unk, let_value_t, EnvS)
X1(LLOCE, let_stopped_lv, EnvS)
X1(LVES, stopped_as_error, EnvS)
X2(LMIX2, into_tuple, bulk_n, EnvS)
X2(LVES, starts_on, when_all_unk, EnvS)
X1(LV, reschedule, EnvS)
XS(LVES, let_value_lv, on_inl, EnvS)
XS(LLOC, sequence_a, upon_error_n, EnvS)
X1(LLOC, into_tuple, EnvS)
X2(LTHR, unstoppable, stop_when, EnvU)
X1(LVES, let_stopped_lv, EnvS)
K1(LVES, sequence_a, EnvI)
X1(LUNK, when_all_1, EnvS)
X2(LLOC, bulk_chunked, bulk_chunked, EnvU)
K1(LMIX2, starts_on, EnvS)
X2(LV, unless_stop, materialize, EnvS)
X2(LLOC, let_stopped_lv, upon_error_t, EnvS)
X2(LAFF, when_all_v, finally_a, EnvS)
X1(LV, repeat_n, EnvU)
XS(LLOC, let_stopped_lv, starts_on_inl, EnvS)
XS(LUNK, then_t, when_all_lv, EnvS)
XS(LLOC, finally_a, bulk_t, EnvS)
K1(LLOC, repeat_n, EnvS)
XS(LTHR, let_error_lv, then_v, EnvS)
X2(LAFF, into_tuple, when_all_v, EnvS)
X2(LTHR, let_stopped_lv, when_all_1, EnvS)
XS(LTHR, upon_error_t, bulk_unchunked, EnvS)
X2(LTHR, let_stopped_unk, when_any_2, EnvS)
XS(LLOC, then_t, finally_b, EnvS)
X1(LLOCE, sequence_b, EnvU)
X1(LV, let_stopped_lv, EnvI)
X1(LLOC, stop_when, EnvS)
X1(LUNK, let_value_loc, EnvU)
X2(LLOC, when_all_mix, bulk_n, EnvS)
XS(LUNK, unstoppable, unstoppable, EnvS)
X1(LMIX, let_error_loc, EnvU)
XS(LV, upon_stopped_t, starts_on, EnvS)
X2(LV, when_all_lv, reschedule, EnvU)
XS(LUNK, when_all_1, when_any_1, EnvS)
XS(LMIX, when_any_2, bulk_chunked, EnvS)
XS(LUNK, materialize, let_stopped_unk, EnvS)
X1(LUNK, continues_on, EnvS)
X1(LMIX, let_error_loc, EnvS)
XS(LVES, when_all_lv, affine, EnvS)
X2(LUNK, finally_a, let_value_loc, EnvS)
XS(LAFF, when_any_1, starts_on_inl, EnvS)
XS(LLOC, bulk_t, let_error_loc, EnvS)
XS(LV, then_n, stopped_as_error, EnvS)
X1(LVES, then_n, EnvS)
XS(LMIX2, when_any_1, finally_a, EnvS)
X2(LLOC, stop_when, when_all_1, EnvU)
X2(LAFF, into_tuple, bulk_chunked, EnvS)
X2(LUNK, starts_on, let_error_lv, EnvS)
X1(LLOC, when_all_mix, EnvS)
X2(LLOCE, when_all_unk, materialize, EnvI)
X1(LLOC, then_t, EnvS)
XS(LLOC, write_env, let_value_t, EnvS)
XS(LV, let_error_lv, let_stopped_unk, EnvS)
XS(LMIX2, materialize, when_all_v, EnvS)
X2(LMIX, then_t, when_any_1, EnvS)
XS(LTHR, sequence_a, stopped_as_error, EnvS)
XS(LV, demat, demat, EnvS)
X2(LAFF, then_n, unless_stop, EnvS)
X1(LLOC, bulk_t, EnvU)
X2(LUNK, bulk_unchunked, finally_a, EnvU)
K1(LUNK, repeat_n, EnvS)
X1(LV, when_all_unk, EnvS)
XS(LLOC, bulk_t, sequence_b, EnvS)
X2(LAFF, reschedule, continues_on, EnvI)
K1(LAFF, on_inl, EnvU)
X2(LMIX, when_all_v, let_error_lv, EnvS)
X1(LMIX, affine, EnvS)
X1(LTHR, finally_a, EnvS)
X1(LV, let_value_loc, EnvS)
XS(LLOC, into_tuple, into_variant, EnvS)
X1(LAFF, let_value_t, EnvS)
X2(LVES, on_closure, then_n, EnvS)
X1(LV, sequence_b, EnvI)
XS(LUNK, finally_b, let_value_lv, EnvS)
X1(LTHR, demat, EnvS)
X2(LAFF, affine, continues_on, EnvS)
X2(LAFF, upon_error_n, then_v, EnvU)
X1(LMIX2, then_v, EnvI)
X2(LTHR, when_all_v, into_variant, EnvU)
X2(LLOCE, starts_on_inl, into_variant, EnvI)
X1(LV, then_v, EnvS)
XS(LLOC, let_error_loc, bulk_t, EnvS)
XS(LLOC, starts_on_inl, upon_error_n, EnvS)
XS(LMIX, into_variant, starts_on_inl, EnvS)
X2(LMIX2, when_all_unk, when_all_v, EnvI)
XS(LMIX2, let_error_lv, let_stopped_lv, EnvS)
X1(LMIX2, stop_when, EnvS)
XS(LLOC, upon_stopped_t, demat, EnvS)
X1(LAFF, continues_on, EnvS)
XS(LV, repeat_n, demat, EnvS)
X2(LTHR, sequence_a, sequence_a, EnvS)
X2(LAFF, repeat_n, write_env, EnvU)
X1(LTHR, when_any_2, EnvI)
X1(LTHR, finally_b, EnvI)
X1(LV, repeat_n, EnvS)
X2(LUNK, when_all_v, bulk_chunked, EnvS)
XS(LTHR, when_any_2, when_all_1, EnvS)
X2(LTHR, let_value_loc, upon_stopped_n, EnvI)
X2(LV, upon_error_t, then_t, EnvI)
XS(LV, then_t, reschedule, EnvS)
X2(LVES, when_all_1, upon_stopped_t, EnvI)
X1(LLOC, when_all_unk, EnvU)
XS(LAFF, materialize, unless_stop, EnvS)
X2(LTHR, when_any_1, when_any_2, EnvU)
X1(LLOCE, upon_error_n, EnvS)
XS(LMIX, variant_a, finally_a, EnvS)
X1(LLOC, on, EnvS)
XS(LLOC, sequence_b, stop_when, EnvS)
X1(LAFF, repeat_until, EnvS)
XS(LLOCE, write_env, stop_when, EnvS)
X1(LUNK, into_tuple, EnvU)
X1(LVES, affine, EnvS)
X2(LVES, unstoppable, let_stopped_lv, EnvS)
XS(LAFF, upon_stopped_n, into_tuple, EnvS)
X1(LV, finally_b, EnvS)
X1(LV, then_v, EnvI)
K1(LMIX, repeat_n, EnvS)
X1(LV, then_n, EnvU)
XS(LTHR, when_any_1, stopped_as_error, EnvS)
X2(LTHR, finally_b, then_t, EnvS)
X1(LMIX, stop_when, EnvU)
X1(LLOCE, let_stopped_lv, EnvU)
X1(LUNK, let_error_loc, EnvS)
XS(LVES, let_stopped_lv, starts_on, EnvS)
K1(LUNK, sequence_a, EnvS)
X2(LTHR, bulk_t, upon_error_n, EnvI)
X2(LUNK, repeat_until, materialize, EnvU)
K1(LUNK, continues_on_inl, EnvS)
XS(LV, finally_b, continues_on, EnvS)
XS(LLOCE, on_closure, when_all_unk, EnvS)
XS(LMIX2, let_value_loc, bulk_chunked, EnvS)
XS(LLOC, continues_on, then_n, EnvS)
X1(LLOC, when_all_unk, EnvS)
XS(LAFF, let_value_loc, upon_stopped_t, EnvS)
XS(LMIX2, let_error_loc, into_variant, EnvS)
X2(LLOCE, bulk_n, demat, EnvS)
X2(LVES, let_stopped_unk, let_error_lv, EnvS)
X2(LMIX2, let_value_lv, then_n, EnvS)
X1(LMIX2, when_any_1, EnvS)
X1(LLOC, variant_a, EnvS)
XS(LMIX, reschedule, when_all_mix, EnvS)
XS(LTHR, sequence_a, upon_error_t, EnvS)
X1(LMIX, into_variant, EnvS)
X1(LMIX, when_all_1, EnvS)
X1(LAFF, bulk_chunked, EnvU)
XS(LV, when_all_v, when_all_unk, EnvS)
X1(LMIX, then_v, EnvS)
X1(LAFF, repeat_n, EnvS)
X2(LTHR, bulk_unchunked, when_any_2, EnvS)
X1(LMIX, unstoppable, EnvI)
X2(LMIX2, repeat_until, stopped_as_optional, EnvS)
XS(LAFF, stop_when, let_error_loc, EnvS)
X1(LVES, let_stopped_unk, EnvS)
XS(LAFF, repeat_n, bulk_chunked, EnvS)
X1(LLOCE, let_value_t, EnvS)
XS(LV, finally_a, continues_on_inl, EnvS)
K1(LLOCE, starts_on, EnvI)
X1(LTHR, then_t, EnvS)
X1(LLOCE, when_all_mix, EnvS)
X1(LUNK, finally_a, EnvS)
XS(LVES, bulk_unchunked, starts_on, EnvS)
X1(LUNK, stop_when, EnvS)
XS(LAFF, continues_on_inl, when_all_lv, EnvS)
XS(LTHR, when_all_mix, unstoppable, EnvS)
X1(LLOC, finally_a, EnvS)
X2(LLOC, then_t, starts_on_inl, EnvU)
X1(LTHR, when_all_unk, EnvS)
X2(LLOC, into_variant, let_stopped_lv, EnvS)
X1(LV, bulk_t, EnvS)
XS(LV, unless_stop, let_value_t, EnvS)
X1(LTHR, let_stopped_lv, EnvU)
X1(LUNK, unstoppable, EnvU)
XS(LUNK, stopped_as_optional, when_all_lv, EnvS)
X1(LLOCE, then_n, EnvS)
X1(LVES, upon_error_t, EnvU)
X2(LMIX, bulk_t, let_value_t, EnvI)
X1(LAFF, continues_on, EnvI)
X2(LLOCE, upon_stopped_t, bulk_chunked, EnvS)
X2(LLOCE, repeat_until, upon_error_t, EnvU)
X2(LLOC, unless_stop, variant_a, EnvS)
X1(LV, upon_stopped_n, EnvS)
XS(LLOCE, write_env, let_value_lv, EnvS)
X1(LUNK, bulk_n, EnvS)
XS(LMIX, then_n, affine, EnvS)
X2(LTHR, then_t, when_all_mix, EnvS)
X2(LTHR, when_all_1, into_tuple, EnvS)
