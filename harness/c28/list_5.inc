X1(LV, unless_stop, EnvS)
X1(LVES, materialize, EnvI)
XS(LMIX, when_all_lv, then_v, EnvS)
XS(LMIX, starts_on, when_all_lv, EnvS)
X1(LAFF, into_variant, EnvI)
X1(LUNK, demat, EnvS)
X2(LMIX2, then_v, sequence_a, EnvS)
X1(LTHR, unstoppable, EnvS)
XS(LVES, into_tuple, finally_a, EnvS)
K1(LMIX2, fork_join, EnvS)
X1(LV, upon_error_n, EnvS)
X1(LLOC, fork_join, EnvI)
X2(LLOCE, fork_join, finally_b, EnvS)
K1(LTHR, let_value_t, EnvS)
X1(LAFF, affine, EnvI)
X2(LLOC, fork_join, let_value_loc, EnvS)
XS(LLOC, upon_stopped_n, bulk_t, EnvS)
X2(LTHR, then_v, on_inl, EnvS)
X2(LV, when_all_v, let_error_loc, EnvS)
XS(LMIX, when_any_1, when_all_v, EnvS)
X1(LLOC, upon_stopped_n, EnvS)
X2(LMIX2, when_all_mix, demat, EnvS)
X2(LAFF, when_all_unk, let_error_loc, EnvI)
XS(LTHR, reschedule, bulk_n, EnvS)
X2(LLOC, when_all_1, sequence_b, EnvU)
XS(LVES, affine, repeat_until, EnvS)
X1(LV, into_variant, EnvS)
X1(LUNK, fork_join, EnvS)
XS(LLOC, variant_a, finally_b, EnvS)
X1(LLOCE, fork_join, EnvS)
X2(LV, continues_on, when_all_lv, EnvS)
X2(LV, upon_stopped_n, repeat_until, EnvI)
XS(LLOCE, when_any_1, on, EnvS)
X2(LUNK, stopped_as_error, let_value_t, EnvS)
X2(LMIX, starts_on, variant_a, EnvS)
X2(LVES, into_variant, unless_stop, EnvS)
XS(LAFF, stop_when, when_any_2, EnvS)
X2(LMIX2, on_closure, when_any_2, EnvI)
X1(LV, write_env, EnvS)
X1(LAFF, affine, EnvS)
K1(LMIX, upon_error_t, EnvS)
X2(LMIX, when_any_2, variant_a, EnvU)
X2(LAFF, then_t, starts_on, EnvU)
X2(LTHR, let_error_loc, bulk_unchunked, EnvU)
X1(LLOCE, sequence_b, EnvS)
XS(LV, bulk_chunked, finally_b, EnvS)
X1(LVES, starts_on, EnvU)
X2(LTHR, fork_join, sequence_a, EnvS)
XS(LVES, fork_join, unless_stop, EnvS)
XS(LLOCE, then_t, let_value_t, EnvS)
X2(LLOC, let_error_loc, stopped_as_error, EnvS)
X2(LLOCE, when_all_lv, when_all_mix, EnvS)
X1(LVES, upon_stopped_t, EnvI)
X2(LLOCE, on_closure, let_stopped_lv, EnvI)
X2(LVES, into_variant, stopped_as_error, EnvU)
X1(LLOC, let_value_loc, EnvS)
X1(LV, when_any_1, EnvS)
X2(LMIX2, when_all_1, when_all_1, EnvS)
X2(LLOC, when_all_v, bulk_unchunked, EnvS)
XS(LVES, fork_join, let_value_lv, EnvS)
X1(LLOCE, then_v, EnvS)
X2(LMIX2, materialize, into_tuple, EnvI)
K1(LVES, on, EnvS)
XS(LMIX, write_env, materialize, EnvS)
X2(LTHR, finally_a, let_stopped_lv, EnvS)
K1(LMIX2, then_t, EnvS)
X1(LV, materialize, EnvS)
K1(LLOC, on_closure, EnvI)
X2(LLOCE, bulk_n, then_v, EnvS)
X2(LAFF, finally_a, materialize, EnvS)
X1(LVES, stop_when, EnvI)
K1(LMIX2, on_inl, EnvS)
X1(LLOCE, demat, EnvU)
XS(LLOC, let_stopped_lv, sequence_a, EnvS)
X2(LV, fork_join, when_any_1, EnvS)
X1(LVES, into_variant, EnvI)
X1(LTHR, then_n, EnvS)
X1(LAFF, bulk_unchunked, EnvS)
X2(LUNK, on_inl, finally_a, EnvU)
XS(LLOCE, into_tuple, sequence_b, EnvS)
X1(LLOCE, bulk_unchunked, EnvS)
X2(LAFF, stopped_as_error, into_variant, EnvS)
X1(LVES, finally_a, EnvS)
X2(LLOC, on_inl, upon_stopped_t, EnvS)
XS(LUNK, upon_stopped_n, let_value_loc, EnvS)
XS(LMIX2, continues_on_inl, finally_b, EnvS)
K1(LAFF, sequence_a, EnvI)
X2(LVES, when_any_1, bulk_n, EnvI)
X1(LMIX2, repeat_n, EnvU)
XS(LMIX2, when_all_v, finally_b, EnvS)
X2(LMIX2, stopped_as_error, when_any_1, EnvS)
X1(LMIX2, sequence_a, EnvS)
X2(LTHR, reschedule, finally_a, EnvS)
X2(LV, variant_a, into_variant, EnvS)
X2(LVES, affine, starts_on_inl, EnvS)
X2(LMIX2, finally_b, upon_stopped_n, EnvS)
X1(LMIX2, finally_b, EnvS)
X1(LUNK, let_error_lv, EnvS)
X1(LV, into_tuple, EnvS)
X1(LUNK, let_stopped_unk, EnvU)
X1(LVES, repeat_until, EnvS)
X1(LTHR, continues_on_inl, EnvU)
K1(LMIX2, upon_stopped_n, EnvS)
X1(LTHR, when_any_1, EnvS)
X1(LVES, upon_stopped_n, EnvS)
X1(LLOC, stopped_as_optional, EnvI)
X2(LLOC, upon_error_n, bulk_unchunked, EnvS)
XS(LV, into_tuple, let_error_loc, EnvS)
XS(LMIX, when_all_v, let_stopped_unk, EnvS)
X1(LVES, when_all_v, EnvS)
X2(LMIX2, into_variant, unstoppable, EnvI)
XS(LLOC, let_value_t, when_all_1, EnvS)
X1(LV, demat, EnvI)
X1(LV, when_all_1, EnvS)
XS(LVES, when_all_v, upon_stopped_t, EnvS)
X2(LAFF, bulk_t, when_any_1, EnvS)
X1(LUNK, upon_error_t, EnvS)
X2(LUNK, when_all_mix, when_any_1, EnvU)
X2(LVES, variant_a, affine, EnvS)
X2(LMIX2, let_value_lv, variant_a, EnvS)
X1(LMIX, affine, EnvU)
XS(LV, upon_error_n, let_stopped_unk, EnvS)
K1(LLOCE, continues_on_inl, EnvS)
XS(LUNK, starts_on, stopped_as_error, EnvS)
XS(LTHR, when_all_v, into_tuple, EnvS)
X2(LLOCE, then_v, stopped_as_error, EnvS)
X2(LVES, affine, unstoppable, EnvS)
XS(LMIX, when_all_1, materialize, EnvS)
X2(LV, when_all_unk, let_value_loc, EnvI)
X1(LLOC, when_any_2, EnvS)
X1(LLOC, stopped_as_error, EnvS)
XS(LAFF, let_stopped_unk, variant_a, EnvS)
K1(LMIX, let_stopped_unk, EnvS)
K1(LMIX, bulk_t, EnvS)
X1(LLOC, fork_join, EnvS)
X1(LLOCE, let_value_t, EnvI)
K1(LMIX2, upon_stopped_n, EnvU)
XS(LUNK, when_all_1, then_v, EnvS)
K1(LAFF, on_inl, EnvS)
X1(LMIX2, demat, EnvS)
XS(LMIX2, on_closure, stopped_as_error, EnvS)
XS(LVES, finally_b, starts_on_inl, EnvS)
X2(LUNK, stop_when, starts_on_inl, EnvI)
X2(LLOCE, when_any_2, starts_on_inl, EnvU)
K1(LTHR, stopped_as_optional, EnvS)
X2(LVES, continues_on_inl, upon_error_n, EnvI)
X2(LMIX2, when_all_unk, upon_stopped_n, EnvS)
K1(LMIX2, bulk_unchunked, EnvU)
X2(LLOC, when_any_1, unless_stop, EnvI)
X1(LTHR, bulk_unchunked, EnvS)
X1(LLOC, sequence_b, EnvS)
X2(LAFF, let_stopped_unk, when_all_v, EnvI)
K1(LLOC, starts_on, EnvS)
X1(LMIX, when_any_1, EnvI)
X2(LLOC, fork_join, write_env, EnvS)
X1(LUNK, finally_b, EnvS)
X1(LAFF, stopped_as_error, EnvU)
XS(LLOC, finally_b, materialize, EnvS)
XS(LTHR, when_all_mix, when_all_1, EnvS)
XS(LVES, let_error_lv, stopped_as_optional, EnvS)
XS(LVES, demat, let_stopped_lv, EnvS)
XS(LAFF, let_error_lv, on, EnvS)
X1(LLOCE, when_any_2, EnvI)
X1(LAFF, let_error_lv, EnvS)
X1(LTHR, on_inl, EnvI)
X1(LLOC, bulk_t, EnvS)
X2(LLOC, bulk_chunked, demat, EnvI)
XS(LV, write_env, affine, EnvS)
X2(LTHR, stopped_as_optional, let_stopped_unk, EnvS)
XS(LLOC, let_value_t, let_value_t, EnvS)
X1(LLOC, finally_b, EnvS)
X1(LAFF, let_error_loc, EnvI)
XS(LLOCE, then_v, when_any_1, EnvS)
X1(LUNK, into_variant, EnvS)
X2(LVES, then_t, when_all_unk, EnvS)
X1(LLOCE, into_tuple, EnvS)
XS(LMIX, starts_on_inl, bulk_n, EnvS)
X1(LV, variant_a, EnvS)
XS(LMIX2, when_all_1, let_stopped_lv, EnvS)
X1(LLOCE, bulk_t, EnvS)
X1(LTHR, upon_error_t, EnvS)
XS(LMIX, when_any_2, let_error_lv, EnvS)
X2(LVES, bulk_chunked, write_env, EnvS)
X1(LLOC, unstoppable, EnvS)
XS(LLOC, finally_b, stop_when, EnvS)
X1(LMIX, when_all_unk, EnvS)
XS(LLOCE, sequence_b, let_stopped_lv, EnvS)
K1(LMIX2, unless_stop, EnvS)
XS(LMIX2, when_any_1, bulk_t, EnvS)
X2(LV, then_n, unstoppable, EnvS)
XS(LLOCE, bulk_n, bulk_t, EnvS)
X2(LLOCE, let_error_lv, let_error_loc, EnvS)
X1(LMIX2, starts_on_inl, EnvU)
XS(LVES, unstoppable, on_closure, EnvS)
