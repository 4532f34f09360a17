"""Reference definitions for code_import_statements_module (see DESIGN.md)."""
eT_zhz_import_statements = '# system imports\nfrom math import factorial\n\n# third party imports\nimport numpy as np\nimport opt_einsum as oe\n\n# local imports\nfrom .symmetrize import symmetrize_tensor\nfrom ..log_conf import log\n\n'
full_cc_import_statements = '# system imports\nfrom math import factorial\n\n# third party imports\nimport numpy as np\nimport opt_einsum as oe\n\n# local imports\nfrom .symmetrize import symmetrize_tensor\nfrom ..log_conf import log\n\n'
dt_equations_import_statements = '# system imports\nfrom math import factorial\n\n# third party imports\nimport numpy as np\nimport opt_einsum as oe\n\n# local imports\nfrom ..log_conf import log\nfrom .symmetrize import symmetrize_tensor\nfrom . import residual_equations\n\n'
residual_equations_import_statements = '# system imports\n\n# third party imports\nimport numpy as np\n\n# local imports\nfrom .symmetrize import symmetrize_tensor\n\n'
w_equations_import_statements = '# system imports\nfrom math import factorial\n\n# third party imports\nimport numpy as np\nimport opt_einsum as oe\n\n# local imports\nfrom .symmetrize import symmetrize_tensor\nfrom ..log_conf import log\n\n'
