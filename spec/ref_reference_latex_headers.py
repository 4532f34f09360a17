"""Reference definitions for reference_latex_headers (see DESIGN.md)."""
w_equations_latex_header = '\n\\documentclass{article}\n\n\\usepackage[T1]{fontenc}\n\\usepackage{geometry}\n\\usepackage{natbib}\n\\usepackage{graphicx}\n\\usepackage{amsmath}\n\\usepackage{physics}\n\\usepackage{simplewick}\n\n\\usepackage{color}\n\\NewDocumentCommand{\\disconnected}{G{}}{\\colorbox{yellow}{$#1$}}\n\\NewDocumentCommand{\\red}{G{}}{{\\color{red}#1}}\n\\NewDocumentCommand{\\blue}{G{}}{{\\color{blue}#1}}\n\\NewDocumentCommand{\\magenta}{G{}}{{\\color{magenta}#1}}\n\n\\geometry{legalpaper, landscape, left=0.4in, right=0.4in, top=0.25in, bottom=0.5in}\n\n\\newcommand{\\bh}{\\textbf{h}}\n\\newcommand{\\bs}{\\textbf{s}}\n\\newcommand{\\bt}{\\textbf{t}}\n\\newcommand{\\bw}{\\textbf{w}}\n\\newcommand{\\bW}{\\textbf{W}}\n\\newcommand{\\bc}{\\textbf{c}}\n\\newcommand{\\bd}{\\textbf{d}}\n\n\\newcommand{\\up}[1]{\\hat{#1}^{\\dagger}}\n\\newcommand{\\down}[1]{\\hat{#1}}\n\n\\begin{document}\n'
full_vecc_latex_header = '\n\\documentclass{article}\n\n\\usepackage[T1]{fontenc}\n\\usepackage{geometry}\n\\usepackage{natbib}\n\\usepackage{graphicx}\n\\usepackage{amsmath}\n\\usepackage{physics}\n\\usepackage{simplewick}\n\n\\usepackage{color}\n\\NewDocumentCommand{\\disconnected}{G{}}{\\colorbox{yellow}{$#1$}}\n\\NewDocumentCommand{\\red}{G{}}{{\\color{red}#1}}\n\\NewDocumentCommand{\\blue}{G{}}{{\\color{blue}#1}}\n\\NewDocumentCommand{\\magenta}{G{}}{{\\color{magenta}#1}}\n\n\\geometry{legalpaper, landscape, left=0.4in, right=0.4in, top=0.25in, bottom=0.5in}\n\n\\newcommand{\\bh}{\\textbf{h}}\n\\newcommand{\\bs}{\\textbf{s}}\n\\newcommand{\\bt}{\\textbf{t}}\n\\newcommand{\\bw}{\\textbf{w}}\n\\newcommand{\\bc}{\\textbf{c}}\n\\newcommand{\\bd}{\\textbf{d}}\n\n\\newcommand{\\up}[1]{\\hat{#1}^{\\dagger}}\n\\newcommand{\\down}[1]{\\hat{#1}}\n\n\\begin{document}\n\n%\n%\n%\n%\n\\section{Automated equations}\nAll equations are derived assuming a Hamiltonian and $\\hat{S}$ of the form:\n\\begin{equation}\n    \\hat{H} = \\sum_{a,b} \\ket{a}\\bra{b}h^{a}_{b}(q)\n\\qquad\\qquad\n    \\hat{S} = \\sum_{c,d} \\ket{c}\\bra{d}s^{c}_{d}(q)\n\\qquad\\qquad\n    \\hat{\\Omega} = \\down{i} + \\up{i} + \\down{i}\\down{j} + \\down{i}\\up{j} + \\up{i}\\up{j} + \\cdots\n\\end{equation}\nwhen we limit ourselves to at most 2nd order terms (creation operator: $\\down{b}$, annihilation operator: $\\up{b}$)\n\\begin{equation}\n    \\bh(q) = \\bh + \\bh_{i}\\down{i} + \\bh^{i}\\up{i} + \\bh^{i}_{j}\\up{i}\\down{j} + \\frac{1}{2}\\bh_{ij}\\down{i}\\down{j} + \\frac{1}{2}\\bh^{ij}\\up{i}\\up{j}\n\\end{equation}\nand\n\\begin{equation}\n    \\bs(q) = \\bs_{i}\\down{i} + \\bs^{i}\\up{i} + \\bs^{i}_{j}\\up{i}\\down{j} + \\frac{1}{2}\\bs_{ij}\\down{i}\\down{j} + \\frac{1}{2}\\bs^{ij}\\up{i}\\up{j}\n\\end{equation}\n\nDefine the following: (not correct but mechanically useful)\n\\begin{equation}\n    f = \\contraction[1ex]{}{\\up{b}}{}{\\down{b}}\\up{b}\\down{b}\n\\qquad\n    \\bar{f} = \\contraction[1ex]{}{\\down{b}}{}{\\up{b}}\\down{b}\\up{b}\n\\qquad\n    (\n    \\contraction[1ex]{}{\\down{b}}{}{\\up{b}}\\down{b}\\up{b}\n    -\n    \\contraction[1ex]{}{\\up{b}}{}{\\down{b}}\\up{b}\\down{b}\n    )\n    = (\\bar{f} - f) = 1\n\\qquad\n    \\bar{f} = 1, f = 0\n\\end{equation}\nand\n\\begin{equation}\n    \\bt_{i} \\equiv f\\bs_{i}\n\\qquad\n    \\bt^{i} \\equiv \\bar{f}\\bs^{i}\n\\qquad\n    \\bt^{i}_{j} \\equiv \\bar{f}f\\bs^{i}_{j}\n\\qquad\n    \\bt^{ij} \\equiv \\bar{f}^2\\bs^{ij}\n\\qquad\n    \\bt_{ij} \\equiv f^2\\bs_{ij}\n\\qquad\n    \\text{and so forth ....}\n\\end{equation}\n\n\nThe amplitude equation is\n\\begin{align}\n    LHS &= RHS\n\\\\\n    \\mel{a}{\\hat{\\Omega}_{\\lambda}\\dv{\\tau}e^{\\hat{S}} + \\hat{\\Omega}_{\\lambda}e^{\\hat{S}}\\varepsilon}{b}\n    &= \\mel{a}{\\hat{\\Omega}_{\\lambda}\\hat{H}e^{\\hat{S}}}{b}.\n\\end{align}\n\n\\clearpage\n\n%\n%\n%\n%\n%\n%\n\n\n'
ground_state_vecc_latex_header = '\n\\documentclass{article}\n\n\\usepackage[T1]{fontenc}\n\\usepackage{geometry}\n\\usepackage{natbib}\n\\usepackage{graphicx}\n\\usepackage{amsmath}\n\\usepackage{physics}\n\\usepackage{simplewick}\n\n\\usepackage{color}\n\\NewDocumentCommand{\\disconnected}{G{}}{\\colorbox{yellow}{$#1$}}\n\\NewDocumentCommand{\\red}{G{}}{{\\color{red}#1}}\n\\NewDocumentCommand{\\blue}{G{}}{{\\color{blue}#1}}\n\\NewDocumentCommand{\\magenta}{G{}}{{\\color{magenta}#1}}\n\n\\geometry{legalpaper, landscape, left=0.4in, right=0.4in, top=0.25in, bottom=0.5in}\n\n\\newcommand{\\bh}{\\textbf{h}}\n\\newcommand{\\bs}{\\textbf{s}}\n\\newcommand{\\bt}{\\textbf{t}}\n\\newcommand{\\bw}{\\textbf{w}}\n\\newcommand{\\bc}{\\textbf{c}}\n\\newcommand{\\bd}{\\textbf{d}}\n\n\\newcommand{\\up}[1]{\\hat{#1}^{\\dagger}}\n\\newcommand{\\down}[1]{\\hat{#1}}\n\n\\begin{document}\n\n%\n%\n%\n%\n\\section{Automated equations}\nAll equations are derived assuming a Hamiltonian and $\\hat{S}$ of the form:\n\\begin{equation}\n    \\hat{H} = \\sum_{a,b} \\ket{a}\\bra{b}h^{a}_{b}(q)\n\\qquad\\qquad\n    \\hat{S} = \\sum_{c,d} \\ket{c}\\bra{d}s^{c}_{d}(q)\n\\qquad\\qquad\n    \\hat{\\Omega} = \\down{i} + \\up{i} + \\down{i}\\down{j} + \\down{i}\\up{j} + \\up{i}\\up{j} + \\cdots\n\\end{equation}\nwhen we limit ourselves to at most 2nd order terms (creation operator: $\\down{b}$, annihilation operator: $\\up{b}$)\n\\begin{equation}\n    \\bh(q) = \\bh + \\bh_{i}\\down{i} + \\frac{1}{2}\\bh_{ij}\\down{i}\\down{j}\n\\end{equation}\nand\n\\begin{equation}\n    \\bs(q) = \\bs^{i}\\up{i} + \\frac{1}{2}\\bs^{ij}\\up{i}\\up{j}\n\\end{equation}\n\nDefine the following: (not correct but mechanically useful)\n\\begin{equation}\n    f = \\contraction[1ex]{}{\\up{b}}{}{\\down{b}}\\up{b}\\down{b}\n\\qquad\n    \\bar{f} = \\contraction[1ex]{}{\\down{b}}{}{\\up{b}}\\down{b}\\up{b}\n\\qquad\n    (\n    \\contraction[1ex]{}{\\down{b}}{}{\\up{b}}\\down{b}\\up{b}\n    -\n    \\contraction[1ex]{}{\\up{b}}{}{\\down{b}}\\up{b}\\down{b}\n    )\n    = (\\bar{f} - f) = 1\n\\qquad\n    \\bar{f} = 1, f = 0\n\\end{equation}\nand\n\\begin{equation}\n    \\bt_{i} \\equiv f\\bs_{i}\n\\qquad\n    \\bt^{i} \\equiv \\bar{f}\\bs^{i}\n\\qquad\n    \\bt^{i}_{j} \\equiv \\bar{f}f\\bs^{i}_{j}\n\\qquad\n    \\bt^{ij} \\equiv \\bar{f}^2\\bs^{ij}\n\\qquad\n    \\bt_{ij} \\equiv f^2\\bs_{ij}\n\\qquad\n    \\text{and so forth ....}\n\\end{equation}\n\nThe amplitude equation is\n\\begin{align}\n    LHS &= RHS\n\\\\\n    \\mel{a}{\\hat{\\Omega}_{\\lambda}\\dv{\\tau}e^{\\hat{S}} + \\hat{\\Omega}_{\\lambda}e^{\\hat{S}}\\varepsilon}{b}\n    &= \\mel{a}{\\hat{\\Omega}_{\\lambda}\\hat{H}e^{\\hat{S}}}{b}.\n\\end{align}\n\\clearpage\n\n%\n%\n%\n%\n%\n%\n\n\n'
full_z_t_symmetric_latex_header = '\n\\documentclass{article}\n\n\\usepackage[T1]{fontenc}\n\\usepackage{geometry}\n\\usepackage{natbib}\n\\usepackage{graphicx}\n\\usepackage{amsmath}\n\\usepackage{amssymb}\n\\usepackage{bm}\n\\usepackage{physics}\n\\usepackage{simplewick}\n\\usepackage{dsfont}\n\n\\usepackage{color}\n\\NewDocumentCommand{\\disconnected}{G{}}{\\colorbox{yellow}{$#1$}}\n\\NewDocumentCommand{\\red}{G{}}{{\\color{red}#1}}\n\\NewDocumentCommand{\\blue}{G{}}{{\\color{blue}#1}}\n\\NewDocumentCommand{\\magenta}{G{}}{{\\color{magenta}#1}}\n\n% \\geometry{portrait, left=0.4in, right=0.4in, top=0.25in, bottom=0.5in}\n\\geometry{legalpaper, landscape, left=0.4in, right=0.4in, top=0.25in, bottom=0.5in}\n\n\\newcommand{\\bh}{\\textbf{h}}\n\\newcommand{\\bt}{\\textbf{t}}\n\\newcommand{\\bw}{\\textbf{w}}\n\\newcommand{\\bc}{\\textbf{c}}\n\\newcommand{\\bd}{\\textbf{d}}\n\n\\newcommand{\\bs}{\\textbf{s}}\n\\newcommand{\\bz}{\\textbf{z}}\n\\newcommand{\\bS}{\\hat{\\textbf{S}}_{\\gamma}}\n\\newcommand{\\bZ}{\\hat{\\textbf{Z}}_{\\gamma}}\n\\newcommand{\\ebS}{e^{\\bS}}\n\\newcommand{\\ebZ}{e^{\\bZ}}\n\\newcommand{\\g}{\\hat{g}_{\\gamma}}\n\\newcommand{\\bg}{\\hat{\\textbf{g}}_{\\gamma}}\n\\newcommand{\\bG}{\\textbf{G}}\n\n\\newcommand{\\up}[1]{\\hat{#1}^{\\dagger}}\n\\newcommand{\\down}[1]{\\hat{#1}}\n\n\\begin{document}\n\n\n%\n%\n%\n%\n\\section{Automated equations}\nAll equations are derived assuming a Hamiltonian, $\\hat{S}$ and $\\hat{Z}$ of the form:\n\\begin{equation}\n    \\hat{H} = \\sum_{a,b} \\ket{a}\\bra{b}h^{a}_{b}(q)\n\\qquad\\qquad\n    \\hat{S} = \\sum_{c,d} \\ket{c}\\bra{d}s^{c}_{d}(q)\n\\qquad\\qquad\n    \\hat{Z} = \\sum_{e>f} \\ket{e}\\bra{f}z^{e}_{f}(q)\n\\qquad\\qquad\n    \\hat{\\Omega} = \\down{i} + \\up{i} + \\down{i}\\down{j} + \\down{i}\\up{j} + \\up{i}\\up{j} + \\cdots\n\\end{equation}\nwhen we limit ourselves to at most 2nd order terms (creation operator: $\\down{b}$, annihilation operator: $\\up{b}$)\n\\begin{equation}\n    \\bh(q) = \\bh + \\bh_{i}\\down{i} + \\bh^{i}\\up{i} + \\bh^{i}_{j}\\up{i}\\down{j} + \\frac{1}{2}\\bh_{ij}\\down{i}\\down{j} + \\frac{1}{2}\\bh^{ij}\\up{i}\\up{j}\n\\end{equation}\n\\begin{equation}\n    \\bs(q) = \\bs_{i}\\down{i} + \\bs^{i}\\up{i} + \\bs^{i}_{j}\\up{i}\\down{j} + \\frac{1}{2}\\bs_{ij}\\down{i}\\down{j} + \\frac{1}{2}\\bs^{ij}\\up{i}\\up{j}\n\\end{equation}\n\\begin{equation}\n    \\bz(q) = \\bz_{0} + \\bz_{i}\\down{i} + \\bz^{i}\\up{i} + \\bz^{i}_{j}\\up{i}\\down{j} + \\frac{1}{2}\\bz_{ij}\\down{i}\\down{j} + \\frac{1}{2}\\bz^{ij}\\up{i}\\up{j}\n\\end{equation}\n\nDefine the following: (not correct but mechanically useful)\n\\begin{equation}\n    f = \\contraction[1ex]{}{\\up{b}}{}{\\down{b}}\\up{b}\\down{b}\n\\qquad\n    \\bar{f} = \\contraction[1ex]{}{\\down{b}}{}{\\up{b}}\\down{b}\\up{b}\n\\qquad\n    (\n    \\contraction[1ex]{}{\\down{b}}{}{\\up{b}}\\down{b}\\up{b}\n    -\n    \\contraction[1ex]{}{\\up{b}}{}{\\down{b}}\\up{b}\\down{b}\n    )\n    = (\\bar{f} - f) = 1\n\\qquad\n    \\bar{f} = 1, f = 0\n\\end{equation}\nand\n\\begin{equation}\n    \\bt_{i} \\equiv f\\bs_{i}\n\\qquad\n    \\bt^{i} \\equiv \\bar{f}\\bs^{i}\n\\qquad\n    \\bt^{i}_{j} \\equiv \\bar{f}f\\bs^{i}_{j}\n\\qquad\n    \\bt^{ij} \\equiv \\bar{f}^2\\bs^{ij}\n\\qquad\n    \\bt_{ij} \\equiv f^2\\bs_{ij}\n\\qquad\n    \\text{and so forth ....}\n\\end{equation}\n\n\nThe ansatz equation\n\\begin{equation}\n    \\ket{\\psi_{\\gamma}(\\tau)}\n    = e^{i\\hat{H}\\tau}\\ket{\\gamma,0}\n%\n    \\approx e^{\\hat{Z}_{\\gamma}}e^{\\hat{S}_{\\gamma}}\\ket{\\gamma,0}\n%\n    = (\\hat{1}+\\hat{Z})e^{\\hat{S}_{\\gamma}}\\ket{\\gamma,0}\n\\end{equation}\n\\begin{equation}\n    \\ket{\\Psi(\\tau)} = \\sum_{\\gamma}\\bm{\\chi}_\\gamma\\ket{\\psi_{\\gamma}(\\tau)}\n    % \\quad (\\bm{\\chi} \\text{ is a vector which is A dimensionality})\n\\end{equation}\n\nThe old amplitude equation is\n\\begin{align}\n    LHS &= RHS\n\\\\\n    \\mel{a}{\\hat{\\Omega}_{\\lambda}\\dv{\\tau}e^{\\hat{S}} + \\hat{\\Omega}_{\\lambda}e^{\\hat{S}}\\varepsilon}{b}\n    &= \\mel{a}{\\hat{\\Omega}_{\\lambda}\\hat{H}e^{\\hat{S}}}{b}.\n\\end{align}\n\nThe new amplitude equation is\n\\begin{align}\n    LHS &= RHS\n\\\\\n    i\\Bigg[\\dv{\\tau}e^{\\hat{S}_{\\gamma}} + e^{\\hat{S}_{\\gamma}}\\dv{\\tau}\\hat{Z}_{\\gamma}\\Bigg]\n    &= (\\hat{1} - \\hat{Z}_{\\gamma})\\hat{H}(\\hat{1} + \\hat{Z}_{\\gamma})e^{\\hat{S}_{\\gamma}}\n    = \\hat{g}e^{\\hat{S}_{\\gamma}}\n    % \\bra{a}\n    % i\\Bigg[\\dv{\\tau}e^{\\hat{S}_{\\gamma}} + e^{\\hat{S}_{\\gamma}}\\dv{\\tau}\\hat{Z}\\Bigg]\n    % \\ket{b}\n    % &=\n    % \\bra{a}\n    % \\hat{g}e^{\\hat{S}_{\\gamma}}\n    % \\ket{b}\n\\end{align}\n\nso we can project\n\\begin{align}\n    \\bra{a}\n    % i\\hat{\\Omega}_{\\lambda}\\dv{\\bS}{\\tau}\n    i\\Bigg[\\Omega_{\\lambda}\\dv{\\tau}e^{\\hat{S}_{\\gamma}} + \\Omega_{\\lambda}e^{\\hat{S}_{\\gamma}}\\dv{\\tau}\\hat{Z}_{\\gamma}\\Bigg]\n    \\ket{b}\n    &=\n    \\bra{a}\n    % \\hat{\\Omega}_{\\lambda}\\Big(\\bg  - i\\dv{\\bZ}{\\tau}\\Big)e^{\\bS}\n    \\Omega_{\\lambda}\\g e^{\\hat{S}_{\\gamma}}\n    \\ket{b}\n\\end{align}\n\n\nWe have the relation that\n\\begin{align}\n    ie^{\\bS}\n    \\Big(\n        \\dv{\\bS}{\\tau} + \\dv{\\bZ}{\\tau}\n    \\Big)\n    &= \\bg e^{\\bS}\n\\\\\n    ie^{\\bS}\\dv{\\bS}{\\tau}\n    &= \\bg e^{\\bS} - i\\dv{\\bZ}{\\tau}e^{\\bS}\n    = \\Big(\\bg  - i\\dv{\\bZ}{\\tau}\\Big)e^{\\bS}\n\\\\\n    i\\dv{\\bS}{\\tau}\n    &= e^{-\\bS}\\Big(\\bg  - i\\dv{\\bZ}{\\tau}\\Big)e^{\\bS}\n\\end{align}\n\n\\clearpage\n%\n%\n%\n%\n%\n%\n\n\n\n'
ground_state_z_t_symmetric_latex_header = '\n\\documentclass{article}\n\n\\usepackage[T1]{fontenc}\n\\usepackage{geometry}\n\\usepackage{natbib}\n\\usepackage{graphicx}\n\\usepackage{amsmath}\n\\usepackage{amssymb}\n\\usepackage{bm}\n\\usepackage{physics}\n\\usepackage{simplewick}\n\\usepackage{dsfont}\n\n\\usepackage{color}\n\\NewDocumentCommand{\\disconnected}{G{}}{\\colorbox{yellow}{$#1$}}\n\\NewDocumentCommand{\\red}{G{}}{{\\color{red}#1}}\n\\NewDocumentCommand{\\blue}{G{}}{{\\color{blue}#1}}\n\\NewDocumentCommand{\\magenta}{G{}}{{\\color{magenta}#1}}\n\n%\\geometry{portrait, left=0.4in, right=0.4in, top=0.25in, bottom=0.5in}\n\\geometry{a4paper, left=0.4in, right=0.4in, top=0.25in, bottom=0.5in}\n%\\geometry{legalpaper, landscape, left=0.4in, right=0.4in, top=0.25in, bottom=0.5in}\n\n\\newcommand{\\bh}{\\textbf{h}}\n\\newcommand{\\bt}{\\textbf{t}}\n\\newcommand{\\bw}{\\textbf{w}}\n\\newcommand{\\bc}{\\textbf{c}}\n\\newcommand{\\bd}{\\textbf{d}}\n\n\\newcommand{\\bs}{\\textbf{s}}\n\\newcommand{\\bz}{\\textbf{z}}\n\\newcommand{\\bS}{\\hat{\\textbf{S}}_{\\gamma}}\n\\newcommand{\\bZ}{\\hat{\\textbf{Z}}_{\\gamma}}\n\\newcommand{\\ebS}{e^{\\bS}}\n\\newcommand{\\ebZ}{e^{\\bZ}}\n\\newcommand{\\g}{\\hat{g}_{\\gamma}}\n\\newcommand{\\bg}{\\hat{\\textbf{g}}_{\\gamma}}\n\\newcommand{\\bG}{\\textbf{G}}\n\n\\newcommand{\\up}[1]{\\hat{#1}^{\\dagger}}\n\\newcommand{\\down}[1]{\\hat{#1}}\n\n\\begin{document}\n\n\n%\n%\n%\n%\n\\section{Automated equations}\nAll equations are derived assuming a Hamiltonian, $\\hat{S}$ and $\\hat{Z}$ of the form:\n\\begin{equation}\n    \\hat{H} = \\sum_{a,b} \\ket{a}\\bra{b}h^{a}_{b}(q)\n\\qquad\\qquad\n    \\hat{S} = \\sum_{c,d} \\ket{c}\\bra{d}s^{c}_{d}(q)\n\\qquad\\qquad\n    \\hat{Z} = \\sum_{e>f} \\ket{e}\\bra{f}z^{e}_{f}(q)\n\\qquad\\qquad\n    \\hat{\\Omega} = \\down{i} + \\up{i} + \\down{i}\\down{j} + \\down{i}\\up{j} + \\up{i}\\up{j} + \\cdots\n\\end{equation}\nwhen we limit ourselves to at most 2nd order terms (creation operator: $\\down{b}$, annihilation operator: $\\up{b}$)\n\\begin{equation}\n    \\bh(q) = \\bh + \\bh_{i}\\down{i} + \\bh^{i}\\up{i} + \\bh^{i}_{j}\\up{i}\\down{j} + \\frac{1}{2}\\bh_{ij}\\down{i}\\down{j} + \\frac{1}{2}\\bh^{ij}\\up{i}\\up{j}\n\\end{equation}\n\\begin{equation}\n    \\bs(q) = \\bs_{0} + \\bs^{i}\\up{i} + \\frac{1}{2}\\bs^{ij}\\up{i}\\up{j}\n\\end{equation}\n\\begin{equation}\n    \\bz(q) = \\bz_{0} + \\bz^{i}\\up{i} + \\frac{1}{2}\\bz^{ij}\\up{i}\\up{j}\n\\end{equation}\n\nDefine the following: (not correct but mechanically useful)\n\\begin{equation}\n    f = \\contraction[1ex]{}{\\up{b}}{}{\\down{b}}\\up{b}\\down{b}\n\\qquad\n    \\bar{f} = \\contraction[1ex]{}{\\down{b}}{}{\\up{b}}\\down{b}\\up{b}\n\\qquad\n    (\n    \\contraction[1ex]{}{\\down{b}}{}{\\up{b}}\\down{b}\\up{b}\n    -\n    \\contraction[1ex]{}{\\up{b}}{}{\\down{b}}\\up{b}\\down{b}\n    )\n    = (\\bar{f} - f) = 1\n\\qquad\n    \\bar{f} = 1, f = 0\n\\end{equation}\nand\n\\begin{equation}\n    \\bt_{i} \\equiv f\\bs_{i}\n\\qquad\n    \\bt^{i} \\equiv \\bar{f}\\bs^{i}\n\\qquad\n    \\bt^{i}_{j} \\equiv \\bar{f}f\\bs^{i}_{j}\n\\qquad\n    \\bt^{ij} \\equiv \\bar{f}^2\\bs^{ij}\n\\qquad\n    \\bt_{ij} \\equiv f^2\\bs_{ij}\n\\qquad\n    \\text{and so forth ....}\n\\end{equation}\n\n\nThe ansatz equation\n\\begin{equation}\n    \\ket{\\psi_{\\gamma}(\\tau)}\n    = e^{i\\hat{H}\\tau}\\ket{\\gamma,0}\n%\n    \\approx e^{\\hat{S}_{\\gamma}}e^{\\hat{Z}_{\\gamma}}\\ket{\\gamma,0}\n%\n    = e^{\\hat{S}_{\\gamma}}(\\hat{1}+\\hat{Z})\\ket{\\gamma,0}\n\\end{equation}\n\\begin{equation}\n    \\ket{\\Psi(\\tau)} = \\sum_{\\gamma}\\bm{\\chi}_\\gamma\\ket{\\psi_{\\gamma}(\\tau)}\n    % \\quad (\\bm{\\chi} \\text{ is a vector which is A dimensionality})\n\\end{equation}\n\nThe new amplitude equation is\n\\begin{align}\n    LHS &= RHS\n\\\\\n    (\\hat{1} - \\hat{Z}_{\\gamma})\\left(i\\dv{\\hat{S}_{\\gamma}}{\\tau}\\right)(\\hat{1} + \\hat{Z}_{\\gamma})\n    &= (\\hat{1} - \\hat{Z}_{\\gamma})e^{-\\hat{S}_{\\gamma}}\\hat{H}e^{\\hat{S}_{\\gamma}}(\\hat{1} + \\hat{Z}_{\\gamma})\n%\n\\\\  &= (\\hat{1} - \\hat{Z}_{\\gamma})\\bar{H}_{\\gamma}(\\hat{1} + \\hat{Z}_{\\gamma})\n\\\\  &= \\hat{G}\n\\end{align}\n\nwhere\n\\begin{align}\n    i\\dv{\\hat{S}_{\\gamma}}{\\tau} = \\left(\\bar{H} + \\bar{H}\\hat{Z}\\right)_{\\gamma\\gamma} = \\hat{G}_{\\gamma\\gamma}\n\\end{align}\n\nand\n\n\\begin{align}\n    i\\dv{\\hat{Z}_{x\\gamma}}{\\tau} = \\left(\\bar{H} + \\bar{H}\\hat{Z}\\right)_{x\\gamma} - i\\dv{\\hat{S}_{\\gamma}}{\\tau}\\hat{Z}_{x\\gamma}\n\\end{align}\n\n\\clearpage\n%\n%\n%\n%\n%\n%\n\n\n'
