from rules.common import *
from sa import lints

TECHNIQUE = 'ownership dataflow over the Python and C++ syntax trees: files, temporary files and storage from new are released on every path, exceptional ones included'
NOTE = 'Static analysis. Every place that opens a file, names a temporary file or calls new is enumerated; each must be released on all paths by construction (context manager, finally, delete). Trusts the parsers; objects stored in attributes are the business of their owner and are not followed.'

RULES = [
    Lint('files', lints.files_closed),
    Lint('scratch', lints.scratch_removed),
    Lint('memory', lints.memory_released),
]
