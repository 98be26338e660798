"""Texts for DESIGN.md: the oracle of each check."""
O = {
'C01': 'a list model: the sorted set of external ids per object type, taken '
       'from the columns of that type (`mc/ref.py` and the check).',
'C02': '`RefData.select` of `mc/ref.py`: lists of events, scores and features '
       'in terms of external ids; `ref.compare` reads the real container '
       'completely. In addition a container rebuilt from the survivors.',
'C03': '`RefData`, in which features are a dictionary from external id to '
       'row; the whole container is compared after every operation.',
'C04': 'one `RefData` per live container; an operation changes exactly one of '
       'them. Arrays of the caller are compared with copies.',
'C05': 'exact rational arithmetic (`fractions`) on decimal domains.',
'C06': 'a list model.',
'C07': 'the table the file was written from.',
'C08': 'the table the original files were written from, decoded by the '
       'documentation of the original distribution.',
'C09': 'the equation of the documentation evaluated in plain Python on the '
       'published parameters, with objects looked up by external id.',
'C10': 'the answer of an untouched model to the event alone.',
'C11': 'the documented objective evaluated in plain Python over the external '
       'ids of the training events (`mc/models.py: objective`), at the '
       'parameters the model publishes after the controlled optimizer '
       'answered the point.',
'C12': 'a five point difference stencil of the objective handed to the '
       'optimizer, along every coordinate, with an error bound derived from '
       'the step and the magnitude of the objective.',
'C13': 'what the controlled optimizer was given and answered, and counts and '
       'the objective computed from the training events.',
'C14': 'a new object of the same class, hyper-parameters and seed fitted to '
       'the same data; compared bit for bit.',
'C15': 'published attributes and predictions before the rejected fit.',
'C16': 'published attributes and predictions right after the fit; '
       '`RefData` for the container.',
'C17': 'the definition of binary scores; and 0 < p < 1.',
'C18': 'a Python set of observed pairs; the documented objective and its '
       'gradient over all pairs of known objects.',
'C19': '`mc/plsa.py`: one EM step from the definition with dictionaries '
       'keyed by external ids.',
'C20': 'expectation or set of modes computed by the definition from the '
       'published distributions; ties accept any of the modes.',
'C21': 'the losses of the trajectory, observed separately with tolerance 0.',
'C22': '`fractions`.',
'C23': '`fractions`; counts of nearest levels.',
'C24': 'definitions; the area by counting all pairs of a positive and a '
       'negative, ties as one half.',
'C25': 'the definition in rational arithmetic.',
'C26': 'a function that records its calls, and the mean of its answers.',
'C27': 'set arithmetic on indices; bounds of sizes per group.',
'C28': 'set arithmetic; the sizes documented by scikit-learn for one group '
       'of that size.',
'C29': 'index modulo K.',
'C30': 'the folds each iteration yields alone.',
'C31': 'the original record, compared structurally; `json` itself.',
'C32': 'the logistic function of `math` in a numerically safe form; '
       '`platform` and package metadata.',
'C33': 'one run of all folds; records compared after removing times.',
'C34': 'a plain reading of the input file, a separate fit of the model on the '
       'expected training part, the arguments given.',
'C35': '`fractions` over the pooled predictions.',
'C36': 'differential: the model of the narrow data or of the original ids.',
'C37': 'the result each operation gives alone.',
'C38': 'a dictionary of the hyper-parameters last given, and a new object '
       'constructed with them and fitted to the same data.',
'C39': 'the definition of legal numbers and types of columns and shapes; '
       'the table of the legal rows.',
}

# bugs a check of that time did not report
MISSED = '''C01c C02b C02g C02i C03c C05e C05g C07b C07f C09d C10a C10b C10e C11a
C11c C12a C12b C12f C12g C13a C13b C13c C13d C13f C14b C14c C14d C14e
C14f C16b C17a C17e C18a C18d C19a C19b C19c C20a C20e C21b C22b C22d
C22f C23b C23d C23e C23f C24a C26a C26b C26c C27d C28c C28e C29a C31e
C34f C34g C36c C37b C37c C38c C38e C13h C23g C31h C32g C30e C20f C38g
C33f C28g C26f C32h C01e C19f C35g C20g
C21i C05h C14m C09g C03f C26h C38j C13j C14p C01g C21k C04g C16d C07k C34q C35m C01h C25d C26j C27h C35n C10j C02n'''

REFACTOR = '''
`tools/refactor.py A`, `B`, `C` and `D` hold more than a hundred edits (helper functions, comprehensions,
matrix products for loops, `einsum`, `np.add.at`, `searchsorted`, reordered
statements and checks, the optimizer imported inside of a function or as a
module and called with one function for value and gradient, private caches,
results written in another way, ...) of every module and most scripts. Each
batch is applied as a whole to a copy of /repo; all checks stayed quiet.
'''
