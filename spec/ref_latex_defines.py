"""Reference definitions for latex_defines (see DESIGN.md)."""
bold_t_latex = '\\bt'
bold_h_latex = '\\bh'
bold_w_latex = '\\bw'
bold_c_latex = '\\bc'
bold_d_latex = '\\bd'
bold_z_latex = '\\bz'
bold_s_latex = '\\bs'
bold_G_latex = '\\bG'
bold_dt_dtau_latex = '\\dv{\\textbf{t}}{\tau}'
