NA = {
}
LEVEL = {}
DEFAULT_NOTE = ('every obligation generated from the current source is discharged for all element values over the exact reals/machine integers; '
                'storage kinds, element types and compile-time sizes are the enumerated instantiations, run-time sizes are bounded as labelled')
NOTE = {}
