X2(LUNK, let_value_lv, finally_a, EnvS)
X2(LLOC, finally_b, when_all_unk, EnvS)
XS(LV, materialize, upon_stopped_t, EnvS)
X1(LMIX, stopped_as_error, EnvS)
K1(LVES, sequence_b, EnvS)
X2(LUNK, when_all_mix, then_t, EnvS)
XS(LVES, unstoppable, when_all_unk, EnvS)
XS(LVES, stopped_as_optional, when_all_v, EnvS)
XS(LTHR, when_all_v, on_inl, EnvS)
X2(LMIX2, on_inl, variant_a, EnvI)
X1(LTHR, bulk_chunked, EnvS)
X2(LUNK, stopped_as_error, then_v, EnvS)
XS(LVES, unstoppable, stopped_as_error, EnvS)
XS(LLOC, bulk_unchunked, stopped_as_optional, EnvS)
X1(LTHR, continues_on_inl, EnvS)
X1(LLOC, when_all_1, EnvS)
X2(LV, unless_stop, repeat_n, EnvS)
XS(LVES, reschedule, write_env, EnvS)
X1(LTHR, starts_on_inl, EnvS)
XS(LLOC, stopped_as_optional, bulk_chunked, EnvS)
X1(LTHR, let_stopped_lv, EnvS)
XS(LLOC, then_v, let_error_lv, EnvS)
X2(LLOCE, into_variant, into_variant, EnvS)
K1(LMIX, repeat_until, EnvS)
X2(LV, let_error_loc, let_stopped_lv, EnvS)
X1(LTHR, let_value_lv, EnvS)
X2(LVES, repeat_n, bulk_n, EnvS)
X2(LAFF, unless_stop, reschedule, EnvS)
XS(LLOCE, finally_b, bulk_chunked, EnvS)
XS(LVES, let_value_loc, starts_on_inl, EnvS)
X2(LUNK, unstoppable, when_all_1, EnvU)
X2(LVES, repeat_until, then_v, EnvS)
XS(LLOC, stop_when, on_inl, EnvS)
X1(LUNK, when_all_lv, EnvS)
X2(LMIX, let_error_loc, bulk_n, EnvU)
XS(LUNK, upon_error_n, let_error_loc, EnvS)
X1(LLOC, on_inl, EnvS)
K1(LMIX, bulk_t, EnvI)
XS(LTHR, on, affine, EnvS)
X1(LMIX2, demat, EnvI)
XS(LLOCE, when_all_v, then_v, EnvS)
X1(LAFF, let_value_t, EnvU)
X1(LV, when_all_mix, EnvS)
X1(LVES, when_all_unk, EnvS)
X1(LV, starts_on, EnvS)
XS(LVES, finally_b, into_tuple, EnvS)
X2(LLOC, into_tuple, let_value_t, EnvS)
X2(LMIX2, let_error_loc, upon_error_t, EnvS)
X1(LLOC, let_value_loc, EnvU)
XS(LLOC, into_variant, on_closure, EnvS)
X2(LLOC, affine, upon_error_t, EnvS)
X2(LV, when_all_unk, starts_on, EnvS)
X1(LMIX2, then_n, EnvS)
XS(LTHR, sequence_a, variant_a, EnvS)
X1(LAFF, starts_on, EnvS)
XS(LAFF, when_all_unk, bulk_unchunked, EnvS)
XS(LV, unstoppable, write_env, EnvS)
K1(LMIX, continues_on, EnvS)
XS(LVES, when_all_lv, stopped_as_error, EnvS)
X1(LUNK, affine, EnvS)
K1(LLOC, repeat_until, EnvS)
X1(LVES, stopped_as_error, EnvU)
K1(LMIX, upon_stopped_t, EnvU)
XS(LV, finally_b, let_value_loc, EnvS)
X1(LLOC, let_value_t, EnvS)
X1(LTHR, let_value_lv, EnvU)
X2(LVES, materialize, let_value_t, EnvS)
XS(LAFF, when_all_unk, then_t, EnvS)
X1(LMIX, let_value_loc, EnvI)
XS(LAFF, let_stopped_unk, upon_error_n, EnvS)
XS(LTHR, stop_when, when_all_v, EnvS)
X1(LMIX2, on_closure, EnvU)
X2(LTHR, let_error_loc, finally_a, EnvS)
X1(LTHR, finally_b, EnvS)
X1(LV, let_value_t, EnvS)
XS(LAFF, demat, stopped_as_error, EnvS)
XS(LMIX, bulk_n, when_any_1, EnvS)
XS(LLOCE, upon_stopped_t, upon_error_t, EnvS)
X2(LTHR, let_value_lv, reschedule, EnvI)
X1(LLOCE, variant_a, EnvS)
X2(LTHR, then_t, then_t, EnvS)
XS(LVES, let_error_loc, unstoppable, EnvS)
X1(LLOCE, variant_a, EnvI)
K1(LLOCE, continues_on_inl, EnvU)
K1(LVES, on_inl, EnvS)
XS(LUNK, unless_stop, starts_on_inl, EnvS)
X1(LV, on, EnvS)
X1(LV, affine, EnvS)
X1(LLOC, upon_stopped_n, EnvI)
X1(LLOC, stopped_as_optional, EnvS)
XS(LVES, finally_a, when_any_2, EnvS)
X2(LLOC, when_all_unk, demat, EnvS)
X1(LLOC, let_error_loc, EnvS)
X2(LLOCE, let_stopped_lv, when_all_v, EnvU)
X2(LVES, into_variant, demat, EnvS)
XS(LAFF, write_env, into_tuple, EnvS)
X1(LUNK, unstoppable, EnvS)
XS(LLOCE, sequence_a, let_value_lv, EnvS)
X2(LLOCE, affine, into_tuple, EnvS)
K1(LTHR, upon_stopped_n, EnvS)
X2(LVES, on, when_all_unk, EnvS)
X2(LV, upon_error_n, repeat_until, EnvS)
X2(LVES, let_value_lv, into_tuple, EnvS)
XS(LLOC, stopped_as_error, continues_on, EnvS)
XS(LLOCE, upon_stopped_t, let_value_lv, EnvS)
XS(LVES, starts_on, when_any_2, EnvS)
X2(LAFF, variant_a, let_value_loc, EnvS)
XS(LLOCE, upon_stopped_t, write_env, EnvS)
X2(LUNK, demat, into_tuple, EnvU)
X1(LAFF, let_value_loc, EnvS)
X2(LMIX2, let_stopped_unk, demat, EnvU)
X2(LVES, upon_stopped_n, upon_stopped_t, EnvI)
XS(LAFF, stop_when, affine, EnvS)
X1(LTHR, stopped_as_error, EnvI)
XS(LTHR, starts_on, write_env, EnvS)
X2(LMIX2, let_error_lv, upon_stopped_n, EnvI)
XS(LLOC, repeat_n, when_any_1, EnvS)
X1(LLOCE, when_any_1, EnvS)
XS(LTHR, when_any_1, demat, EnvS)
K1(LMIX, let_stopped_lv, EnvS)
X1(LTHR, bulk_n, EnvU)
K1(LMIX2, repeat_n, EnvS)
X2(LAFF, affine, upon_error_n, EnvS)
X2(LLOC, upon_stopped_n, demat, EnvI)
X1(LV, when_any_2, EnvS)
X2(LUNK, stop_when, stop_when, EnvS)
XS(LUNK, unless_stop, on_inl, EnvS)
X1(LUNK, reschedule, EnvI)
XS(LLOC, when_all_1, variant_a, EnvS)
XS(LLOCE, bulk_chunked, bulk_n, EnvS)
X1(LUNK, when_all_unk, EnvU)
XS(LV, then_t, on_inl, EnvS)
K1(LMIX2, upon_stopped_t, EnvS)
XS(LUNK, bulk_n, bulk_n, EnvS)
X2(LLOCE, demat, bulk_chunked, EnvI)
XS(LLOCE, upon_error_t, starts_on_inl, EnvS)
XS(LLOC, when_all_lv, upon_error_t, EnvS)
X2(LLOCE, unstoppable, demat, EnvU)
X1(LV, unstoppable, EnvS)
X2(LUNK, when_any_2, materialize, EnvS)
XS(LMIX2, write_env, into_variant, EnvS)
X1(LLOC, when_all_v, EnvI)
X1(LV, let_value_lv, EnvS)
X2(LUNK, bulk_unchunked, when_all_unk, EnvI)
X1(LLOC, starts_on_inl, EnvS)
X2(LLOCE, upon_error_t, on_closure, EnvS)
X1(LLOCE, write_env, EnvS)
X2(LMIX2, on_closure, let_error_loc, EnvI)
X2(LTHR, reschedule, let_error_loc, EnvI)
XS(LLOC, let_value_t, affine, EnvS)
X1(LMIX, materialize, EnvS)
X2(LAFF, affine, reschedule, EnvS)
X2(LVES, let_error_lv, into_variant, EnvU)
X1(LAFF, materialize, EnvI)
X1(LVES, bulk_chunked, EnvS)
X1(LTHR, on, EnvS)
XS(LLOCE, bulk_unchunked, into_tuple, EnvS)
X2(LVES, when_any_1, upon_error_n, EnvS)
XS(LLOCE, variant_a, continues_on, EnvS)
X1(LUNK, materialize, EnvS)
XS(LVES, bulk_chunked, reschedule, EnvS)
X2(LLOCE, into_variant, when_any_2, EnvS)
XS(LVES, unstoppable, when_any_1, EnvS)
K1(LMIX, upon_stopped_t, EnvS)
K1(LAFF, on, EnvS)
X2(LLOCE, when_all_lv, upon_stopped_t, EnvS)
XS(LUNK, reschedule, then_v, EnvS)
X1(LLOC, bulk_unchunked, EnvI)
XS(LLOCE, write_env, when_any_2, EnvS)
X1(LAFF, bulk_t, EnvS)
X1(LVES, upon_error_n, EnvS)
X1(LLOCE, stop_when, EnvS)
X2(LMIX, continues_on, affine, EnvS)
X1(LUNK, starts_on, EnvS)
XS(LV, on_inl, continues_on, EnvS)
X2(LV, finally_a, let_error_loc, EnvS)
XS(LLOCE, unstoppable, finally_a, EnvS)
X2(LV, bulk_t, into_variant, EnvS)
X1(LLOC, sequence_a, EnvS)
X2(LV, when_all_mix, when_all_lv, EnvS)
X1(LMIX2, affine, EnvS)
X1(LTHR, sequence_b, EnvS)
