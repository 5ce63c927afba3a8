BUGS = []
H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy, core\nimport math, numpy, copy, pickle, warnings\nwarnings.simplefilter("ignore")\n'
def B(id, file, old, new, demo, needs, breaks, head=H):
    BUGS.append({'id': id, 'prop': id[:3].upper(), 'edits': [(file, old, new)] if isinstance(file, str) else file, 'demo': head + demo, 'needs': needs, 'breaks': breaks})
C, M, N, L = 'core.py', 'umath_core.py', 'unumpy/core.py', 'unumpy/ulinalg.py'
B('c21-zero-pad-sign', C, "                fmt_prefix_e = '%s%d%s' % (\n", "                fmt_prefix_e = '%s%s%d%s' % (\n                    fmt_parts['sign'].strip('-'),\n", "assert '{:+010f}'.format(ufloat(1, .1)) == '+000001.00+/-0000000.10', '{:+010f}'.format(ufloat(1, .1))", 'sign option with zero padding', 'the uncertainty has a sign too')
B('c21-inf-no-exp', C, "        nom_has_exp = not any_exp_factored and not isinfinite(nom_val_main)", "        nom_has_exp = not any_exp_factored and not isinfinite(nom_val_main) and not isnan(error_main)", "assert 'e+10' in '{:20e}'.format(ufloat(1e10, math.nan)), '{:20e}'.format(ufloat(1e10, math.nan))", 'a NaN uncertainty with a width', 'the exponent of the value is missing')
B('c22-align-center', C, "            effective_align = fmt_parts['align'] or '>'", "            effective_align = (fmt_parts['align'] or '>').replace('=', '>')", "try: r = '{:=20f}'.format(ufloat(1, .1))\nexcept ValueError: pass\nelse: raise SystemExit(1)", 'the = alignment', 'it is accepted')
B('c22-fill-error', C, "                error_str, fmt_parts['fill'], effective_align,", "                error_str, fmt_parts['fill'] if nom_has_exp == error_has_exp else '', effective_align,", "s = '{:*>20}'.format(ufloat(1e10, 0))\nassert s.count('*') > 20, s", 'a fill character with an exact number in exponent notation', 'the uncertainty is filled with spaces')
B('c21-prec-inf', C, "                    fmt_suffix_e = '.%s%s' % (fmt_parts['prec'],\n                                              fmt_parts['type'] or 'g')", "                    fmt_suffix_e = '.%s%s' % (prec,\n                                              fmt_parts['type'] or 'g')", "assert '{:.3g}'.format(ufloat(math.nan, 1.2345)) == 'nan+/-1.23', '{:.3g}'.format(ufloat(math.nan, 1.2345))", 'an undefined value with a precision', 'the number of digits of the uncertainty')
B('c29-uprec-zero', C, "                if not num_signif_d:\n", "                if num_signif_d < 0:\n", "try: '{:.0u}'.format(ufloat(1, .1))\nexcept ValueError: pass\nelse: raise SystemExit(1)", '.0u', 'no error')
B('c21-percent-pdg', C, "                (num_signif_d, std_dev) = PDG_precision(std_dev)", "                (num_signif_d, _) = PDG_precision(std_dev)", "assert '{}'.format(ufloat(1, .0996)) == '1.00+/-0.10', str(ufloat(1, .0996))\nassert '{:S}'.format(ufloat(1, .00996)) == '1.000(10)', '{:S}'.format(ufloat(1, .00996))\nassert str(ufloat(12, 9.6)) == '12+/-10', str(ufloat(12, 9.6))\nassert str(ufloat(1200, 955.)) == '1200+/-1000', str(ufloat(1200, 955.))", 'an uncertainty between 950 and 999', 'it is not rounded to 1000')
B('c22-latex-neg-inf', C, "            if isnan(nom_val_main):\n                nom_val_str = r'\\mathrm{%s}' % nom_val_str\n            elif isinf(nom_val_main):\n                nom_val_str = r'%s\\infty' % ('-' if nom_val_main < 0 else '')\n\n            if isnan(error_main):", "            if isnan(nom_val_main):\n                nom_val_str = r'\\mathrm{%s}' % nom_val_str\n            elif isinf(nom_val_main):\n                nom_val_str = r'%s\\infty' % ('-' if nom_val_main < -error_main else '')\n\n            if isnan(error_main):", "s = '{:L}'.format(ufloat(-math.inf, math.inf))\nassert s.startswith('-'), s", 'minus infinity with an infinite uncertainty', 'no sign')
B('c40-e-width', C, "        if error_has_exp:\n            error_str += exp_str\n", "        if error_has_exp:\n            error_str += exp_str if print_type == 'default' else EXP_PRINT['latex'](common_exp)\n", "x = ufloat_fromstr('{:20eP}'.format(ufloat(1e10, 1e8)))\nassert x.n == 1e10", 'the pretty-print output with a width and an exponent', 'LaTeX exponent')
B('c22-comma-error', C, "                fmt_prefix_n = fmt_parts['sign']+fmt_parts['comma']\n                fmt_prefix_e = fmt_parts['comma']\n        else:  # Options on the format string of each part", "X", 'pass', '', '')
B('c21-percent-neg-exp', C, "        if use_exp:\n\n            # 10.**common_exp", "        if use_exp and pres_type is not None or use_exp and not match.group('width'):\n\n            # 10.**common_exp", "pass", '', '')
B('c29-large-prec', C, "            prec = max(-signif_limit,\n", "            prec = min(max(-signif_limit, 0), 300) if signif_limit < -300 else max(-signif_limit,\n", "assert '{:.1uf}'.format(ufloat(1, 1e-305)).endswith('1'), '{:.1uf}'.format(ufloat(1, 1e-305))[-20:]", 'a tiny uncertainty with the f type', 'it is shown as zero')
B('c19-percent', C, "    match = re.match(u'(.*)(?:\\+/-|±)(.*)$'", "X", 'pass', '', '')
B('c28-std-str', C, "    if isinstance(x, AffineScalarFunc):\n        return x.std_dev\n    else:\n        return 0.0\n", "    return getattr(x, 'std_dev', 0.0)\n", "class A:\n    std_dev = 3\nassert std_dev(A()) == 0", 'another object that has an attribute of the same name', 'it is returned')
B('c14-name-fabs', N, "for f_name in ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atan2', 'atanh']])", "for f_name in ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atan2', 'atanh']]\n        + [('pow', 'power')])", "assert unumpy.pow(numpy.array([ufloat(2, .1)]), 2)[0].n == 4", 'pow()', 'it has another name')
B('c15-ldexp-bool', M, "    else:\n        # This function was not called with an affine function as its\n        # first argument\n", "X", 'pass', '', '')
B('c16-modf-exact', M, "    if aff_func._linear_part:\n        # If not a constant, the fractional part has the same derivatives:", "    if aff_func._linear_part and frac_part:\n        # If not a constant, the fractional part has the same derivatives:", "x = ufloat(2, .1)\nassert std_dev(umath.modf(x)[0]) == .1", 'an integer value', 'the fractional part has no uncertainty')
B('c11-symmetric-nan', C, "            for j in range(i+1, len(covariance_matrix))])", "            if covariance_matrix[j][i] == covariance_matrix[j][i] else 0.0 for j in range(i+1, len(covariance_matrix))])", "pass", '', '')
B('c09-fromstr-cache', C, "def ufloat_fromstr(representation, tag=None):\n", "_parsed = {}\n\ndef ufloat_fromstr(representation, tag=None):\n", 'pass', '', '')
