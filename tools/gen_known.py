"""Writes known_findings.json: what was repaired, one line per defect."""
import json
import os
import subprocess
F = [
 ('C04', '3159b5a', 'an expression used for several operands of one operation (x * x): coefficients or partials of the repeated operand were lost'),
 ('C03', '8ec1a14', 'sech of an input of rank above one, and its derivative, were wrong or failed'),
 ('C04', '592c96c', 'differentiating a product changed its constant coefficient in place, so that later evaluations were wrong'),
 ('C03', '3e324d2', 'dividing an expression by a constant array failed'),
 ('C03', 'e723af8', 'a constant array on the left of +, -, *, / or ** was taken apart by numpy, giving an array of expressions'),
 ('C13', 'b01039d', 'a division by zero in a reciprocal ended the process (exit()) instead of raising'),
 ('C03', 'f6d9f4f', 'an array of constant powers was applied wrongly'),
 ('C03', '9bd8688', 'average over several axes, or over an axis other than the first, had the wrong value, shape or derivative'),
 ('C04', 'a9ed61b', 'max, min and pnorm were differentiated at inputs of an earlier evaluation'),
 ('C04', '1264203', 'einsum with repeated operands or sparse partials had wrong derivatives'),
 ('C02', '1e443ff', 'the product of two matrices was given the wrong shape'),
 ('C02', '840a064', 'an input that was expanded lost its default value'),
 ('C04', 'd09db1a', 'a conditional expression had the wrong shape and kept the derivatives of the other branch'),
 ('C16', '695b981', 'computed expressions could not be indexed; matmat ignored the value of a vector'),
 ('C16', '16f639f', 'an indexed assignment of an expression registered afterwards was not connected'),
 ('C14', 'd336a93', 'a rejected indexed assignment left part of itself behind'),
 ('C14', '72f2dc2', 'a rejected define / define_residual left part of itself behind'),
 ('C11', 'a6daf32', 'a cyclic output started iterating at 1 instead of its declared value'),
 ('C01', '0af956d', 'dependencies other than the indirect ones were removed, so that components were placed before their producers'),
 ('C06', '060d2bf', 'two threads could give the same number to two expressions, so that names collided'),
 ('C15', '7576bca', 'building took exponentially many steps for shared expressions, and deep chains exceeded the recursion limit'),
 ('C07', '65f84f9', 'setting a group up again kept or duplicated what the first set-up had built'),
 ('C07', 'e88d213', 'setting an implicit component up again added its residuals a second time'),
 ('C09', '6a2ef8e', 'implicit outputs sharing inputs or depending on each other failed or were solved against the wrong values'),
 ('C09', '3bcaa61', 'bracketed outputs that depend on each other were not solved together'),
 ('C10', 'eda17d0', 'implicit outputs were differentiated at an earlier point and without the coupling of their residuals'),
 ('C03', 'bd0b046', 'an input declared twice could be indexed through one of the declarations only'),
 ('C03', '0875b0b', 'inner products of vectors failed for reduced expressions, whose shape is an int'),
 ('C04', '959db22', 'the derivative of arcsin failed for inputs of rank above two'),
 ('C02', '8881a8c', 'a vector multiplied by matmat was exposed as a matrix'),
 ('C10', '9904526', 'derivatives through coupled outputs of an implicit component were wrong'),
 ('C09', 'fe44467', 'a bracket without a change of sign of the residual was accepted silently and gave an arbitrary value'),
 ('C12', 'ffd9b91', 'setting up again after an interrupted set-up gave a different model'),
 ('C07', '50ea313', 'a group set up again within a new or changed parent gave wrong derivatives'),
 ('C14', '2c5cc92', 'operands that are neither expressions nor constants were accepted silently by + - * /, and the output computed without them'),
 ('C17', '5951b5c', 'a declaration rejected because of its default left the option declared with the unacceptable value'),
 ('C04', 'a3626be', 'the derivative of an expression raised to the power zero was NaN at zero'),
 ('C01', '018eae4', 'an output created before and assigned after adding a subsystem whose outputs it uses was rejected or placed before the subsystem'),
 ('C17', 'ce7dd2b', 'an option declared with a list or set of types rejected every value'),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for p, h, w in F:
    full = subprocess.run(['git', '-C', '/repo', 'rev-parse', h], capture_output=True, text=True).stdout.strip()
    out.append('fixed: property=%s %s %s' % (p, full or h, w))
json.dump({'findings': [], 'fixed': out}, open(os.path.join(here, 'known_findings.json'), 'w'), indent=1)
