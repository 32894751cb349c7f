X1(LLOCE, upon_error_t, EnvS)
X1(LAFF, fork_join, EnvS)
X1(LLOC, into_variant, EnvS)
XS(LVES, then_t, let_value_lv, EnvS)
X1(LV, continues_on, EnvS)
X2(LMIX2, on_inl, when_all_mix, EnvU)
X2(LLOCE, fork_join, materialize, EnvS)
X1(LV, stopped_as_error, EnvS)
X2(LUNK, when_any_2, starts_on, EnvS)
X1(LV, on_closure, EnvS)
XS(LAFF, let_stopped_lv, when_any_2, EnvS)
X2(LMIX, variant_a, upon_stopped_n, EnvU)
XS(LV, when_all_lv, sequence_a, EnvS)
X2(LTHR, repeat_n, finally_b, EnvS)
X2(LUNK, write_env, when_all_v, EnvS)
X1(LUNK, upon_error_n, EnvU)
X1(LAFF, into_variant, EnvS)
X2(LLOC, bulk_chunked, stopped_as_error, EnvU)
X2(LLOCE, then_t, when_any_2, EnvU)
X2(LUNK, starts_on, stopped_as_optional, EnvI)
X2(LTHR, variant_a, upon_error_n, EnvI)
X1(LLOCE, bulk_chunked, EnvI)
XS(LUNK, when_any_1, when_any_1, EnvS)
X1(LTHR, stop_when, EnvS)
X1(LUNK, starts_on_inl, EnvI)
X1(LMIX2, let_error_loc, EnvS)
X1(LLOCE, unless_stop, EnvU)
X2(LTHR, continues_on, when_all_1, EnvS)
X1(LAFF, when_any_2, EnvS)
X1(LMIX2, when_all_lv, EnvI)
X2(LV, let_value_lv, then_v, EnvU)
X2(LLOCE, unstoppable, upon_stopped_t, EnvS)
XS(LMIX2, when_all_1, let_value_lv, EnvS)
K1(LLOC, continues_on_inl, EnvS)
X1(LVES, variant_a, EnvU)
XS(LLOC, let_value_t, into_tuple, EnvS)
X2(LUNK, stopped_as_optional, when_all_unk, EnvS)
X2(LMIX2, demat, when_all_lv, EnvS)
X2(LV, bulk_n, variant_a, EnvS)
XS(LVES, when_all_v, materialize, EnvS)
XS(LLOC, bulk_t, continues_on, EnvS)
XS(LMIX2, variant_a, when_any_1, EnvS)
XS(LMIX2, write_env, stopped_as_error, EnvS)
XS(LV, unless_stop, stopped_as_error, EnvS)
X1(LUNK, fork_join, EnvI)
X2(LV, stopped_as_error, demat, EnvS)
XS(LUNK, bulk_n, materialize, EnvS)
X1(LLOC, into_tuple, EnvU)
XS(LV, continues_on, on_inl, EnvS)
X2(LV, upon_error_n, when_all_mix, EnvI)
X2(LMIX2, stop_when, materialize, EnvS)
X2(LV, continues_on, let_stopped_lv, EnvS)
K1(LLOCE, on_inl, EnvS)
X1(LMIX2, let_error_lv, EnvU)
XS(LLOCE, unstoppable, sequence_b, EnvS)
X2(LTHR, let_value_t, finally_a, EnvI)
X1(LLOC, reschedule, EnvI)
X1(LTHR, into_variant, EnvS)
X1(LUNK, bulk_unchunked, EnvI)
X1(LV, when_all_v, EnvU)
X1(LUNK, then_v, EnvS)
X2(LMIX2, continues_on, variant_a, EnvS)
X1(LMIX2, then_v, EnvS)
X2(LVES, continues_on_inl, upon_error_t, EnvI)
X1(LUNK, then_n, EnvI)
X1(LV, sequence_b, EnvS)
XS(LLOCE, sequence_a, finally_a, EnvS)
X1(LTHR, unless_stop, EnvU)
K1(LLOCE, unless_stop, EnvS)
X1(LLOC, let_value_lv, EnvS)
X1(LLOC, starts_on_inl, EnvI)
X2(LMIX, when_all_lv, starts_on_inl, EnvS)
XS(LLOC, upon_error_t, upon_error_n, EnvS)
X1(LMIX2, let_stopped_lv, EnvS)
X2(LLOCE, affine, affine, EnvS)
X1(LLOC, then_n, EnvI)
XS(LVES, reschedule, upon_stopped_t, EnvS)
X1(LAFF, when_all_lv, EnvS)
X2(LTHR, upon_error_t, when_all_unk, EnvS)
XS(LV, starts_on_inl, let_error_loc, EnvS)
X1(LMIX2, into_tuple, EnvS)
XS(LMIX2, finally_a, finally_b, EnvS)
K1(LMIX2, on, EnvS)
X1(LLOCE, on_closure, EnvS)
X2(LLOCE, reschedule, upon_stopped_n, EnvI)
X1(LVES, starts_on, EnvS)
X1(LMIX, finally_a, EnvI)
X1(LMIX2, let_value_loc, EnvS)
X1(LAFF, finally_b, EnvU)
X2(LTHR, bulk_chunked, when_any_2, EnvS)
X1(LTHR, on_inl, EnvS)
X2(LVES, let_stopped_unk, let_error_loc, EnvI)
X1(LVES, materialize, EnvS)
X1(LV, fork_join, EnvU)
K1(LLOC, on, EnvU)
X1(LAFF, variant_a, EnvS)
X1(LMIX, then_n, EnvS)
X1(LLOCE, materialize, EnvS)
X1(LMIX2, when_all_mix, EnvS)
K1(LMIX, bulk_unchunked, EnvS)
XS(LAFF, unless_stop, when_all_unk, EnvS)
K1(LTHR, starts_on, EnvI)
XS(LAFF, upon_error_t, affine, EnvS)
X1(LMIX, when_all_lv, EnvS)
X1(LUNK, then_n, EnvS)
X2(LLOC, bulk_unchunked, then_n, EnvU)
K1(LLOC, on_closure, EnvS)
X2(LV, let_value_loc, let_value_lv, EnvS)
X1(LLOCE, bulk_n, EnvS)
X1(LLOC, let_stopped_lv, EnvS)
XS(LVES, when_all_v, stopped_as_error, EnvS)
X1(LAFF, variant_a, EnvU)
X2(LTHR, stopped_as_optional, on_closure, EnvS)
X2(LLOCE, let_error_loc, let_value_t, EnvS)
X1(LTHR, variant_a, EnvI)
XS(LMIX2, write_env, when_all_mix, EnvS)
X1(LUNK, then_t, EnvS)
XS(LAFF, upon_error_n, into_variant, EnvS)
X1(LUNK, let_value_loc, EnvS)
X2(LTHR, finally_a, on, EnvU)
X2(LLOCE, bulk_n, upon_error_n, EnvU)
XS(LUNK, when_any_1, then_t, EnvS)
X1(LMIX2, continues_on_inl, EnvS)
XS(LMIX, stopped_as_error, into_tuple, EnvS)
K1(LMIX, let_stopped_unk, EnvI)
XS(LMIX, unless_stop, when_any_2, EnvS)
K1(LAFF, starts_on_inl, EnvS)
X2(LTHR, when_any_2, upon_error_n, EnvI)
X1(LMIX, finally_b, EnvS)
X2(LTHR, let_stopped_unk, reschedule, EnvS)
X1(LLOC, let_error_lv, EnvS)
X1(LTHR, upon_error_n, EnvS)
XS(LVES, then_t, stop_when, EnvS)
XS(LAFF, let_stopped_lv, into_tuple, EnvS)
X1(LLOC, when_all_lv, EnvS)
X1(LUNK, starts_on_inl, EnvS)
XS(LTHR, on_closure, stop_when, EnvS)
K1(LLOCE, reschedule, EnvS)
XS(LLOC, bulk_unchunked, bulk_t, EnvS)
X1(LLOCE, write_env, EnvU)
XS(LMIX2, continues_on_inl, affine, EnvS)
XS(LVES, affine, continues_on_inl, EnvS)
X1(LUNK, let_error_lv, EnvI)
X1(LMIX2, continues_on_inl, EnvI)
XS(LMIX, affine, materialize, EnvS)
X2(LV, let_error_loc, then_n, EnvU)
X2(LLOC, stop_when, then_n, EnvS)
X1(LV, bulk_n, EnvI)
X1(LV, continues_on_inl, EnvS)
X2(LLOCE, upon_stopped_t, into_tuple, EnvS)
XS(LAFF, into_variant, let_error_loc, EnvS)
X1(LMIX, starts_on_inl, EnvS)
X1(LAFF, when_all_1, EnvS)
X2(LV, then_n, bulk_t, EnvS)
XS(LUNK, let_stopped_lv, let_stopped_lv, EnvS)
XS(LAFF, into_tuple, repeat_until, EnvS)
X2(LLOCE, then_v, when_all_1, EnvU)
X1(LAFF, bulk_chunked, EnvS)
X2(LAFF, when_all_1, when_all_v, EnvU)
X1(LLOC, upon_stopped_t, EnvS)
K1(LTHR, repeat_n, EnvS)
K1(LMIX2, bulk_unchunked, EnvS)
X2(LMIX, let_error_loc, bulk_chunked, EnvS)
X1(LUNK, let_value_lv, EnvS)
XS(LLOC, unstoppable, finally_b, EnvS)
XS(LAFF, when_all_1, repeat_until, EnvS)
XS(LMIX2, let_error_lv, when_any_1, EnvS)
K1(LMIX2, upon_error_n, EnvS)
X1(LLOCE, affine, EnvS)
X1(LVES, repeat_n, EnvS)
X1(LLOCE, when_all_unk, EnvS)
X1(LLOCE, when_all_1, EnvS)
X2(LMIX2, into_tuple, let_value_loc, EnvS)
X1(LLOC, upon_error_t, EnvS)
X2(LLOCE, finally_a, bulk_n, EnvS)
X2(LLOCE, when_all_1, upon_error_t, EnvS)
X2(LLOC, continues_on_inl, continues_on, EnvS)
X2(LUNK, when_all_mix, upon_error_n, EnvI)
X2(LVES, let_stopped_unk, stop_when, EnvS)
X1(LLOC, bulk_n, EnvS)
X1(LV, repeat_until, EnvS)
XS(LV, let_value_lv, bulk_chunked, EnvS)
X1(LV, bulk_chunked, EnvS)
XS(LAFF, let_error_lv, continues_on, EnvS)
XS(LUNK, write_env, then_t, EnvS)
X2(LLOCE, sequence_a, bulk_t, EnvS)
