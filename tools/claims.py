TECH = 'contract-based deductive verification of the real code (symbolic execution of the Python/Cython source against contracts, obligations discharged by z3/cvc5/algebra); run-time evaluation of the contracts as bounded stand-in and counterexample search'
NOTE = 'Functions listed in the evidence file under contracts are proved for all inputs over exact arithmetic (no bound on sizes or iterations); rounding and the remaining functions are covered by bounded run-time evaluation only. Trusted: pyvc, its numpy models, z3, cvc5.'
CLAIM = {p: (TECH, 'proof', NOTE) for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21')}
NOTE22 = 'Linearisation, bilinear forms, parameter derivatives, action and compile are proved for arbitrary equations against assumed contracts of sympy (replace, diff, expand, coeff, simplify), for systems of at most two equations and functions, order at most 2 and at most three integrals per entry (bounded). What sympy and the code printer really do is evaluated at run time only: generated code against automatic differentiation on random equations. Trusted: pyvc, its models, z3.'
CLAIM['C22'] = (TECH + '; contracts of sympy assumed and exercised at run time', 'other', NOTE22)
NA = {}
