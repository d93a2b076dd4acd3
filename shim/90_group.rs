
pub broadcast group vx_ax {
    lemma_str_seq_skip, lemma_str_seq_len,
    ax_string_view, ax_view_string, ax_vec_view, ax_view_vec, ax_str_view, ax_view_str, ax_cbytes, ax_utf8_inv, ax_utf8_inv2, ax_string_len, ax_str_len,
    ax_char_ws, ax_char_alnum, ax_split_pat, ax_refs_len, ax_refs, ax_path_view, ax_view_path, ax_up,
}
