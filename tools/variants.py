"""Edited variants for the self-test: (kind, properties, file, [(old, new)], title)."""
ALL = []
def bug(props, f, edits, title=''):
    ALL.append(('bug', props.split(), f, edits, title))
def ref(props, f, edits, title=''):
    ALL.append(('ref', props.split(), f, edits, title))

G = 'groups.py'
S = 'symmetry_finder.py'
# --- C01
bug('C01', G, [('U = U1.dot(U2.conj())', 'U = U1.dot(U2)')], 'no conj')
bug('C01', G, [('elif c1:\n            U = U1.dot', 'elif c2:\n            U = U1.dot')], 'conj by c2')
bug('C01', G, [('R = R1 * R2\n', 'R = R2 * R1\n')], 'exact order')
bug('C01', G, [('R = ta.dot(R1, R2)', 'R = ta.dot(R2, R1)')], 'array order')
bug('C01', G, [('sympy.ImmutableMatrix(R1) * sympy.ImmutableMatrix(R2)', 'sympy.ImmutableMatrix(R2) * sympy.ImmutableMatrix(R1)')], 'mixed order')
bug('C01', G, [('c1^c2, a1^a2, U', 'c1^c2, a1|a2, U')], 'or')
bug('C01', G, [('_strict_eq=(self._strict_eq or g2._strict_eq)', '_strict_eq=(self._strict_eq and g2._strict_eq)')], 'and')
bug('C01', G, [('if (U1 is None) or (U2 is None):', 'if (U1 is None) and (U2 is None):')], 'none rule')
bug('C01', G, [('''        else:
            U = U1.dot(U2)
        R = _mul''', '''        else:
            U = U2.dot(U1)
        R = _mul''')], 'U order')
ref('C01 C02', G, [('''        if (U1 is None) or (U2 is None):
            U = None
        elif c1:
            U = U1.dot(U2.conj())
        else:
            U = U1.dot(U2)
        R = _mul(R1, R2)''', '''        U = None
        if U1 is not None and U2 is not None:
            U = U1 @ (np.conj(U2) if c1 else U2)
        R = _mul(R1, R2)''')], 'ternary')
ref('C01 C02', G, [('''    def __mul__(self, g2):
        g1 = self''', '''    @staticmethod
    def _mulU(A, B, cc):
        if A is None or B is None:
            return None
        if not cc:
            return np.dot(A, B)
        return np.dot(A, B.conjugate())

    def __mul__(self, g2):
        g1 = self'''), ('''        if (U1 is None) or (U2 is None):
            U = None
        elif c1:
            U = U1.dot(U2.conj())
        else:
            U = U1.dot(U2)
        R = _mul(R1, R2)''', '''        U = self._mulU(U1, U2, c1)
        R = _mul(R1, R2)'''), ('c1^c2, a1^a2', 'c1 != c2, a1 != a2')], 'helper, !=')
ref('C01 C02', G, [('''    if is_sympy_matrix(R1) and is_sympy_matrix(R2):
        # If spatial parts are sympy matrices, use cached multiplication.
        R = R1 * R2
    elif not (is_sympy_matrix(R1) or is_sympy_matrix(R2)):''', '''    s1, s2 = is_sympy_matrix(R1), is_sympy_matrix(R2)
    if s1 and s2:
        # If spatial parts are sympy matrices, use cached multiplication.
        R = R1 @ R2
    elif not s1 and not s2:''')], 'locals')
# --- C02
bug('C02', G, [('''        elif c:
            Uinv = U.T
''', '''        elif c:
            Uinv = U.T.conj()
''')], 'inv antiunitary')
bug('C02', G, [('Uinv = U.T.conj()', 'Uinv = U.conj()')], 'no transpose')
bug('C02', G, [('g = (self if n >=0 else self.inv())', 'g = self')], 'pow neg')
bug('C02', G, [('for _ in range(abs(n)):', 'for _ in range(abs(n) - 1):')], 'pow n-1')
bug('C02', G, [('PointGroupElement(Rinv, c, a, Uinv', 'PointGroupElement(Rinv, c, False, Uinv')], 'flag lost')
bug('C02', G, [('Rinv = ta.array(la.inv(R))', 'Rinv = ta.array(R).transpose()')], 'transpose for inverse')
bug('C02', G, [('Rinv = R**(-1)', 'Rinv = R.T')], 'exact transpose')
bug('C02', G, [('            U = np.eye(self.U.shape[0])\n', '            U = np.eye(self.R.shape[0])\n')], 'identity size')
bug('C02', G, [('Rinv = ta.array(_inv_int(R), int)', 'Rinv = ta.array(la.inv(R), int)')], 'trunc')
ref('C02 C01', G, [('''        result = self.identity()
        g = (self if n >=0 else self.inv())
        for _ in range(abs(n)):
            result *= g
        return result''', '''        if n < 0:
            return self.inv() ** (-n)
        result, base = self.identity(), self
        while n:
            if n % 2:
                result = result * base
            base = base * base
            n //= 2
        return result''')], 'square')
ref('C02', G, [('''        if U is None:
            Uinv = None
        elif c:
            Uinv = U.T
        else:
            Uinv = U.T.conj()
''', '''        Uinv = None
        if U is not None:
            Uinv = U.transpose()
            if not c:
                Uinv = np.conjugate(Uinv)
''')], 'inv rewrite')
ref('C02', G, [('Rinv = ta.array(_inv_int(R), int)', 'Rinv = ta.array(np.round(la.inv(R)), int)')], 'round inv')
# --- C03
bug('C03', G, [('R = R * (-1 if antiunitary else 1)', 'R = R * (-1 if antisymmetry else 1)')], 'minus flag')
bug('C03', G, [('        R = _inv(R)\n        R = R *', '        R = R *')], 'no inverse')
bug('C03', G, [('result = U @ result @ U.T.conj()', 'result = U.T.conj() @ result @ U')], 'U side')
bug('C03', G, [('result = U @ result @ U.T.conj()', 'result = U @ result @ U.T')], 'no conj')
bug('C03', G, [('        if antiunitary:\n            result = result.conj()', '        if antiunitary and U is not None:\n            result = result.conj()')], 'conj only with U')
bug('C03', G, [('model @ (1j*U) + (-1j*U) @ model', 'model @ (-1j*U) + (1j*U) @ model')], 'sign')
bug('C03', G, [('* R[i, j] * momenta[j]', '* R[j, i] * momenta[j]')], 'transpose R')
bug('C03', G, [('result += 1j * model.transform_symbolic(trf)', 'result += model.transform_symbolic(trf)')], '1j')
bug('C03', G, [('''        if U_nonzero:
            # Products of sparse''', '''        elif U_nonzero:
            # Products of sparse''')], 'elif')
ref('C03', G, [('''        R = _inv(R)
        R = R * (-1 if antiunitary else 1)
        result = model.rotate_momenta(R)
        if antiunitary:
            result = result.conj()
        if antisymmetry:
            result = -result
''', '''        R_inv = _inv(R)
        if antiunitary:
            result = model.rotate_momenta(-R_inv).conj()
        else:
            result = model.rotate_momenta(R_inv)
        result = result * (-1 if antisymmetry else 1)
''')], 'merge')
ref('C03', G, [('''            def trf(key):
                return sum([sympy.diff(key, momenta[i]) * R[i, j] * momenta[j]
                          for i, j in product(range(dim), repeat=2)])
''', '''            def trf(key):
                total = 0
                for i, ki in enumerate(momenta):
                    for j, kj in enumerate(momenta):
                        total = total + R[i, j] * kj * sympy.diff(key, ki)
                return total
''')], 'enumerate')
ref('C03', G, [('''            def trf(key):
                return sum([sympy.diff(key, momenta[i]) * R[i, j] * momenta[j]
                          for i, j in product(range(dim), repeat=2)])
''', '''            def trf(key):
                result = 0
                for i in range(dim):
                    dk = sympy.diff(key, momenta[i])
                    result += dk * sum(R[i, j] * momenta[j] for j in range(dim))
                return result
''')], 'nested')
ref('C03', G, [('result += model @ (1j*U) + (-1j*U) @ model', 'result += 1j * (model @ U - U @ model)')], 'commutator')

# --- Model: C04, C06-C09
M = 'model.py'
bug('C04', M, [('k_prime = sympy.Matrix(R) @ sympy.Matrix(momenta)', 'k_prime = sympy.Matrix(R).T @ sympy.Matrix(momenta)')], 'transposed R')
bug('C04', M, [('R_T = np.array(R).astype(float).T', 'R_T = np.array(R).astype(float)')], 'bloch transposed R')
bug('C04', M, [('key.subs(rotated_subs, simultaneous=True)', 'key.subs(rotated_subs)')], 'sequential subs')
bug('C04', M, [('BlochCoeff(-hop, coeff.subs(sympy.I, -sympy.I))', 'BlochCoeff(hop, coeff.subs(sympy.I, -sympy.I))')], 'bloch conj sign')
bug('C04', M, [('BlochCoeff(-hop, coeff.subs(sympy.I, -sympy.I))', 'BlochCoeff(-hop, coeff)')], 'bloch conj coeff')
bug('C04', M, [('result.data = {key.subs(sympy.I, -sympy.I): val.conj()', 'result.data = {key: val.conj()')], 'conj key')
ref('C04 C06 C07 C08 C09', M, [('''        rotated_subs = {k: k_prime for k, k_prime in zip(momenta, k_prime)}

        def trf(key):
            return key.subs(rotated_subs, simultaneous=True)

        return self.transform_symbolic(trf)''', '''        new = list(k_prime)
        return self.transform_symbolic(
            lambda key: key.subs({momenta[i]: new[i] for i in range(len(momenta))}, simultaneous=True))''')], 'rotate by lambda')
ref('C04 C06 C07 C08 C09', M, [('''        R_T = np.array(R).astype(float).T
        result = self.zeros_like()
        result.data = {BlochCoeff(R_T @ hop, coeff): copy(val) for (hop, coeff), val in self.items()}
''', '''        R_f = np.array(R).astype(float)
        result = self.zeros_like()
        for key, val in self.items():
            hop, coeff = key
            result.data[BlochCoeff(np.dot(np.transpose(R_f), hop), coeff)] = copy(val)
''')], 'rotate loop')
bug('C07', M, [('result[key] = self[key] + other[key]', 'result[key] = self[key] - other[key]')], 'sum sign')
bug('C07', M, [('''            for key in other.keys() - self.keys():
                result[key] = copy(other[key])
''', '')], 'right terms dropped')
bug('C07', M, [('return self + (-other)', 'return other + (-self)')], 'sub order')
bug('C07', M, [('''            result.data = {key: val * other for key, val in self.items()}
            result.shape, result.format = _shape_and_format(self[1] * other)''', '''            result.data = {key: other * val for key, val in self.items()}
            result.shape, result.format = _shape_and_format(self[1] * other)''')], 'mul by array on the left')
bug('C07', M, [('result = sum(type(self)({k1 * k2: v1 @ v2},', 'result = sum(type(self)({k1 * k2: v2 @ v1},')], 'matmul order')
bug('C07', M, [('result.data = {key: other @ val for key, val in self.items()}', 'result.data = {key: val @ other for key, val in self.items()}')], 'rmatmul')
bug('C07', M, [('result.data = {key : val * (1/other) for', 'result.data = {key : val * other for')], 'truediv')
bug('C07', M, [('result.data = {key: val.T for key', 'result.data = {key: val for key')], 'T')
bug('C07 C08', M, [('result = sum(type(self)({k1 * k2: v1 @ v2},', 'result = type(self)({k1 * k2: v1 @ v2 for (k1, v1), (k2, v2) in product(self.items(), other.items())}, keep=keep, momenta=self.momenta) if not keep else sum(type(self)({k1 * k2: v1 @ v2},')], 'products overwrite')
bug('C07 C08 C09', M, [('''            result = sum((type(self)({key * other: copy(val)},
                                     keep=keep,
                                     momenta=self.momenta)
                         for key, val in self.items()
                         if (key * other in keep or not keep)),
                         self.zeros_like())
        elif isinstance(other, Model):''', '''            result = self.zeros_like()
            result.data = {key * other: copy(val) for key, val in self.items()}
        elif isinstance(other, Model):''')], 'symbol product unfiltered')
bug('C08', M, [('self[new_key] += new_val', 'self[new_key] = new_val')], 'normalize overwrites')
bug('C08', M, [('new_val = complex(sympy.Mul(*numbers))  * val', 'new_val = val')], 'number lost')
bug('C08', M, [('            total = data[key] + val\n', '            total = val\n')], 'collect overwrites')
bug('C08', M, [('''        result = sum((type(self)({func(key): copy(val)},
                                 normalize=True,
                                 momenta=self.momenta)
                         for key, val in self.items()),
                     self.zeros_like())
        return result''', '''        return type(self)({func(key): copy(val) for key, val in self.items()}, normalize=True, momenta=self.momenta)''')], 'transform overwrites')
bug('C09', M, [('result.keep=self.keep.copy()', 'pass')], 'keep not inherited')
bug('C09', M, [('        result.keep=self.keep.copy()\n        result.momenta=self.momenta\n        return result', '        result.keep=self.keep.copy()\n        return result')], 'momenta not inherited')
bug('C09', M, [('result.shape = self.shape[::-1]', 'pass')], 'T shape')
bug('C09', M, [('keep = self.keep | other.keep\n            result = sum(type(self)({k1 * k2: v1 * v2}', 'keep = self.keep\n            result = sum(type(self)({k1 * k2: v1 * v2}')], 'keep of product')
bug('C09', M, [('result.shape, result.format = (), np.complex128', 'result.shape = ()')], 'trace format')
bug('C09', M, [('substituted.momenta = momenta', 'pass')], 'subs momenta')
bug('C09', M, [('result.shape, result.format = _shape_and_format(self[1] @ other)', 'pass')], 'matmul shape')
ref('C04 C06 C07 C08 C09', M, [('''            for key in self.keys() & other.keys():
                result[key] = self[key] + other[key]
            for key in self.keys() - other.keys():
                result[key] = copy(self[key])
            for key in other.keys() - self.keys():
                result[key] = copy(other[key])''', '''            for key, val in self.items():
                result[key] = val + other[key] if key in other else copy(val)
            for key, val in other.items():
                if key not in self:
                    result[key] = copy(val)''')], 'add by two loops')
ref('C04 C06 C07 C08 C09', M, [('''            result = sum(type(self)({k1 * k2: v1 @ v2},
                                    keep=keep,
                                    momenta = self.momenta)
                          for (k1, v1), (k2, v2) in product(self.items(), other.items())
                          if (k1 * k2 in keep or not keep))
            # Find out the shape of the result even if it is empty
            if isinstance(result, Number) and result == 0:
                result = self.zeros_like()
                result.keep = keep
                result.shape, result.format = _shape_and_format(self[1] @ other[1])''', '''            result = 0
            for k1, v1 in self.items():
                for k2, v2 in other.items():
                    key = k1 * k2
                    if keep and key not in keep:
                        continue
                    result = result + type(self)({key: v1 @ v2}, keep=keep, momenta=self.momenta)
            if isinstance(result, Number):
                result = self.zeros_like()
                result.keep = keep
                result.shape, result.format = _shape_and_format(self[1] @ other[1])''')], 'matmul loops')
ref('C04 C06 C07 C08 C09', M, [('''        # conjugation is bijective, if self was properly formatted, so is this
        result.data = {key.subs(sympy.I, -sympy.I): val.conj()
                        for key, val in self.items()}
''', '''        data = dict()
        for key in self.keys():
            data[key.subs(sympy.I, -sympy.I)] = np.conj(self.data[key]) if isinstance(self.data[key], np.ndarray) else self.data[key].conj()
        result.data = data
''')], 'conj loop')
ref('C04 C06 C07 C08 C09', M, [('''    def __neg__(self):
        result = self.zeros_like()
        result.data = {key: -val for key, val in self.items()}
        return result
''', '''    def _map(self, func):
        result = self.zeros_like()
        result.data = {key: func(val) for key, val in self.items()}
        return result

    def __neg__(self):
        return self._map(lambda val: -val)
'''), ('''        result = self.zeros_like()
        # This is faster than deepcopy of the dict
        # Do not copy the keys, as Sympy objects (and BlochCoeffs) are
        # immutable anyway, and making a copy breaks equality checking and hashing.
        result.data = {k: copy(v) for k, v in self.items()}
        return result''', '''        return self._map(copy)'''), ('''        result = self.zeros_like()
        result.data = {key: val.T for key, val in self.items()}
        result.shape''', '''        result = self._map(lambda val: val.T)
        result.shape''')], '_map helper')
ref('C04 C06 C07 C08 C09', M, [('''    data = {}
    for key, val in terms:
        if key in data:
            total = data[key] + val
            # Sums of some sparse formats have a different sparse format
            val = type(val)(total) if isinstance(val, scipy.sparse.spmatrix) else total
        data[key] = val
    return data''', '''    collected = {}
    for item in terms:
        key, val = item
        if key in collected:
            val = collected[key] + val
            if isinstance(collected[key], scipy.sparse.spmatrix):
                val = type(collected[key])(val)
        collected[key] = val
    return collected''')], 'collect')
ref('C04 C06 C07 C08 C09', M, [('''                    factors = summand.as_ordered_factors()
                    symbols, numbers = [], []
                    for f in factors:
                        # This catches sqrt(2) and much faster than f.is_constant()
                        if f.is_number:
                            numbers.append(f)
                        else:
                            symbols.append(f)
                    new_key''', '''                    factors = summand.as_ordered_factors()
                    numbers = [f for f in factors if f.is_number]
                    symbols = [f for f in factors if not f.is_number]
                    new_key'''), ('''                    self[new_key] += new_val''', '''                    self[new_key] = self[new_key] + new_val''')], 'normalize comprehension')
ref('C04 C06 C07 C08 C09', M, [('''        if isinstance(other, Number):
            result = self.__mul__(other)
        elif isinstance(other, Basic):
            keep = self.keep''', '''        if isinstance(other, Number):
            return self * other
        if isinstance(other, Basic):
            keep = self.keep''')], 'early return')
ref('C04 C06 C07 C08 C09', M, [('''        result = self.zeros_like()
        if isinstance(other, Number):
            result.data = {key : val * (1/other) for key, val in self.items()}
        else:
            raise TypeError(
                "unsupported operand type for /: {} and {}".format(type(self), type(other)))
        return result''', '''        if not isinstance(other, Number):
            raise TypeError(
                "unsupported operand type for /: {} and {}".format(type(self), type(other)))
        return self * (1 / other)''')], 'truediv by mul')
ref('C04 C06 C07 C08 C09', M, [('''        result = sum((type(self)({func(key): copy(val)},
                                 normalize=True,
                                 momenta=self.momenta)
                         for key, val in self.items()),
                     self.zeros_like())
        return result''', '''        result = self.zeros_like()
        for key, val in self.items():
            term = type(self)({func(key): copy(val)}, normalize=True, momenta=self.momenta)
            result = result + term
        return result''')], 'transform loop')
# Bloch
bug('C06', M, [('return BlochCoeff(hop1 + hop2, coeff1 * coeff2)', 'return BlochCoeff(hop1 - hop2, coeff1 * coeff2)')], 'hop diff')
bug('C06', M, [('return coeff * e**(sum(I * ki * di', 'return coeff * e**(sum(-I * ki * di')], 'sign')
bug('C05 C06', M, [('return hop1.shape == hop2.shape and allclose(hop1, hop2) and coeff1 == coeff2', 'return hop1.shape == hop2.shape and allclose(hop1, hop2)')], 'eq')
bug('C06 C09', M, [('''                     keep={key.tosympy(self.momenta, nsimplify=nsimplify)
                                       for key in self.keep},
''', '')], 'tomodel keep')
bug('C06', M, [('            coeff = sympy.simplify(key / hop_expo)', '            coeff = One()')], 'coeff lost')
bug('C06', M, [('hop = [sympy.expand(arg.coeff(momentum)/sympy.I)', 'hop = [sympy.expand(arg.coeff(momentum)*sympy.I)')], 'hop sign')
bug('C06', M, [('coeff = sympy.simplify(coeff * e**diff)', 'coeff = sympy.simplify(coeff)')], 'phase lost')
ref('C04 C06 C07 C08 C09', M, [('''        return coeff * e**(sum(I * ki * di for ki, di in zip(momenta, hop)))''', '''        exponent = 0
        for n, k in enumerate(momenta):
            exponent = exponent + I * k * hop[n]
        return e**exponent * coeff''')], 'tosympy loop')
ref('C04 C06 C07 C08 C09', M, [('''        hop1, coeff1 = self
        if isinstance(other, sympy.Expr):
            return BlochCoeff(hop1, coeff1 * other)
        elif isinstance(other, BlochCoeff):
            hop2, coeff2 = other
            return BlochCoeff(hop1 + hop2, coeff1 * coeff2)
        else:
            raise NotImplementedError''', '''        if isinstance(other, BlochCoeff):
            return BlochCoeff(np.add(self[0], other[0]), self[1] * other[1])
        if not isinstance(other, sympy.Expr):
            raise NotImplementedError
        return BlochCoeff(self[0], other * self[1])''')], 'mul')
ref('C04 C06 C07 C08 C09', M, [('''        return Model({key.tosympy(self.momenta, nsimplify=nsimplify): copy(val)
                      for key, val in self.items()},
                     momenta=self.momenta,
                     keep={key.tosympy(self.momenta, nsimplify=nsimplify)
                                       for key in self.keep},
                     shape=self.shape,
                     format=self.format)''', '''        def conv(key):
            return key.tosympy(self.momenta, nsimplify=nsimplify)

        terms = {}
        for key in self.keys():
            terms[conv(key)] = copy(self[key])
        return Model(terms, momenta=self.momenta, keep=set(map(conv, self.keep)),
                     shape=self.shape, format=self.format)''')], 'tomodel')
# --- C05
bug('C05', G, [('return hash((R, c, a))\n        else', 'return hash((R, c, a, self._strict_eq))\n        else')], 'hash strict')
bug('C05', G, [('            return hash((c, a))', '            return hash((R, c, a))')], 'hash float R')
bug('C05', G, [('if basic_eq and (self._strict_eq is True or other._strict_eq is True):', 'if basic_eq and (self._strict_eq is True):')], 'one-sided strict')
bug('C05', G, [('prop, coeff = prop_to_id(self.U.T.conj() @ other.U)', 'prop, coeff = prop_to_id(self.U.T @ other.U)')], 'no dagger')
bug('C05', G, [('            elif (self.U is None) ^ (other.U is None):\n                U_eq = False', '            elif (self.U is None) ^ (other.U is None):\n                U_eq = True')], 'none U')
bug('C05', G, [('U_eq = (prop and np.isclose(abs(coeff), 1))', 'U_eq = prop and np.isclose(coeff, 1)')], 'phase')
bug('C05', G, [('elif (Rs == identity) ^ (Ro == identity):\n            return Rs == identity', 'elif (Rs == identity) ^ (Ro == identity):\n            return Ro == identity')], 'identity order')
bug('C05', G, [('return (self.conjugate, self.antisymmetry) < (other.conjugate, other.antisymmetry)', 'return (self.antisymmetry, self.conjugate) < (other.antisymmetry, other.conjugate)')], 'flag order')
bug('C05', G, [('if not (self.conjugate, self.antisymmetry) == (other.conjugate, other.antisymmetry):', 'if self.conjugate != other.conjugate:')], 'flags partly')
bug('C05', M, [('        return not self == other\n', '        return type(self) != type(other) or self[1] != other[1]\n')], 'bloch ne')
bug('C05', M, [('        # only hash coeff\n        return hash(self[1])', '        return hash((tuple(self[0]), self[1]))')], 'bloch hash')
ref('C05', G, [('''        if basic_eq and (self._strict_eq is True or other._strict_eq is True):
            if (self.U is None) and (other.U is None):
                U_eq = True
            elif (self.U is None) ^ (other.U is None):
                U_eq = False
            else:
''', '''        if not basic_eq:
            return False
        strict = self._strict_eq or other._strict_eq
        if strict:
            if self.U is None or other.U is None:
                return self.U is other.U
            else:
''')], 'early')
ref('C05', G, [('''        R_eq = _eq(self.R, other.R)
        basic_eq = R_eq and ((self.conjugate, self.antisymmetry) == (other.conjugate, other.antisymmetry))
''', '''        basic_eq = (self.conjugate == other.conjugate and self.antisymmetry == other.antisymmetry
                    and _eq(self.R, other.R))
''')], 'order of tests')
ref('C05', G, [('''        if not (self.conjugate, self.antisymmetry) == (other.conjugate, other.antisymmetry):
            return (self.conjugate, self.antisymmetry) < (other.conjugate, other.antisymmetry)
        elif (Rs == identity) ^ (Ro == identity):
            return Rs == identity
        else:
            return Rs < Ro''', '''        flags, oflags = (self.conjugate, self.antisymmetry), (other.conjugate, other.antisymmetry)
        if flags != oflags:
            return flags < oflags
        sid, oid = Rs == identity, Ro == identity
        if sid != oid:
            return sid
        return Rs < Ro''')], 'lt locals')
ref('C05', G, [('''        if isinstance(R, ta.ndarray_int):
            return hash((R, c, a))
        else:
            return hash((c, a))''', '''        key = (c, a)
        if isinstance(R, ta.ndarray_int):
            key = key + (R,)
        return hash(key)''')], 'hash key')
ref('C05', M, [('''        if not isinstance(other, BlochCoeff):
            # The trivial coefficient is equal to 1
            return bool(isinstance(other, (Number, Basic)) and other == 1
                        and allclose(hop1, 0) and coeff1 == 1)
        hop2, coeff2 = other
        # test equality of hop with allclose
        return hop1.shape == hop2.shape and allclose(hop1, hop2) and coeff1 == coeff2''', '''        if isinstance(other, BlochCoeff):
            hop2, coeff2 = other
            if coeff1 != coeff2 or hop1.shape != hop2.shape:
                return False
            return allclose(hop1, hop2)
        return bool(isinstance(other, (Number, Basic)) and other == 1
                    and allclose(hop1, 0) and coeff1 == 1)''')], 'bloch eq')

# ---- C20
bug('C20', G, [("R = -ta.identity(realspace_dim, int)", "R = ta.identity(realspace_dim, int)")], 'inversion sign')
bug('C20', G, [("R *= (-1 if inversion else 1)\n        if spin is not None:\n            U = spin_rotation(n, spin)", "R *= (-1 if inversion else 1)\n        if spin is not None:\n            U = spin_rotation(-n if inversion else n, spin)")], 'rotoinversion changes U')
bug('C20', G, [("U = spin_rotation(angle * np.array([0, 0, 1]), spin)", "U = spin_rotation(angle * np.array([0, 0, -1]), spin)")], '2D handedness')
bug('C20', G, [("R = np.array([[np.cos(angle), -np.sin(angle)],\n                      [np.sin(angle), np.cos(angle)]])", "R = np.array([[np.cos(angle), np.sin(angle)],\n                      [-np.sin(angle), np.cos(angle)]])")], '2D R transposed')
bug('C20', G, [("n = angle * np.array(axis, float) / la.norm(axis)", "n = angle * np.array(axis, float)")], 'axis not normalised')
bug('C20', G, [("U = spin_rotation(np.pi * axis, spin)", "U = spin_rotation(2 * np.pi * axis, spin)")], 'mirror spin angle')
bug('C20', G, [("axis = np.append(axis, 0)", "axis = np.append(0, axis)")], 'mirror 2D axis embedding')
bug('C20', G, [("np.eye(axis.shape[0]) - 2 * np.outer(axis, axis)", "2 * np.outer(axis, axis) - np.eye(axis.shape[0])")], 'mirror -> C2')
bug('C20', G, [("axis /= la.norm(axis)\n", "axis /= la.norm(axis, 1)\n")], 'mirror norm')
bug('C20', G, [("U = spin_rotation(np.pi * np.array([0, 1, 0]), spin)", "U = spin_rotation(np.pi * np.array([1, 0, 0]), spin)")], 'TR about x')
bug('C20', G, [("return PointGroupElement(R, conjugate=False, antisymmetry=True, U=U)", "return PointGroupElement(R, conjugate=True, antisymmetry=True, U=U)")], 'chiral antiunitary')
bug('C20', G, [("U6 = spin_rotation(np.pi / 3 * np.array([0, 0, 1]), spin)", "U6 = spin_rotation(np.pi / 6 * np.array([0, 0, 1]), spin)")], 'hex U6')
bug('C20', G, [("C6 = rotation(1/6, [0, 0, 1], spin=spin)", "C6 = rotation(1/6, [0, 0, -1], spin=None)")], 'hex C6 no spin')
bug('C20', G, [("[sympy.sqrt(3)/2, sympy.Rational(1, 2), 0]", "[sympy.sqrt(3)/2, -sympy.Rational(1, 2), 0]")], 'hex C6 exact typo')
bug('C20', G, [("cubic_gens = {I, C4, C3}", "cubic_gens = {C4, C3}")], 'cubic without inversion')
bug('C20', G, [("    if tr:\n        TR = time_reversal(3, spin=spin)", "    if tr and ph:\n        TR = time_reversal(3, spin=spin)")], 'cubic tr')
bug('C20', G, [("        TR = time_reversal(dim, spin=spin)", "        TR = time_reversal(dim)")], 'hex tr without spin')
bug('C20', G, [("U[ranges[a], ranges[perm[a]]] = onsite_action[a]", "U[ranges[a], ranges[perm[a]]] = onsite_action[perm[a]]")], 'perm action of image')
bug('C20', G, [("U = la.expm(-1j * np.tensordot(n, s, axes=((0), (0))))", "U = la.expm(1j * np.tensordot(n, s, axes=((0), (0))))")], 'spin rotation sign')
bug('C20', G, [("U = la.expm(-1j * np.tensordot(n, s, axes=((0), (0))))", "U = la.expm(-1j * np.tensordot(n, s.conj(), axes=((0), (0))))")], 'spin rotation conj')
ref('C20', G, [("        n = angle * np.array(axis, float) / la.norm(axis)\n", "        direction = np.array(axis, dtype=float)\n        direction = direction / la.norm(direction)\n        n = direction * angle\n")], 'rotation axis')
ref('C20', G, [("        R *= (-1 if inversion else 1)\n", "        if inversion:\n            R = -R\n")], 'rotoinversion')
ref('C20', G, [("    axis = np.array(axis, float)\n    axis /= la.norm(axis)\n    R = np.eye(axis.shape[0]) - 2 * np.outer(axis, axis)\n", "    axis = np.asarray(axis, float)\n    axis = axis / la.norm(axis)\n    R = -2 * np.outer(axis, axis) + np.eye(len(axis))\n")], 'mirror')
ref('C20', G, [("    cubic_gens = {I, C4, C3}\n", "    cubic_gens = set()\n    for g in (I, C4, C3):\n        cubic_gens.add(g)\n")], 'cubic set')
ref('C20', G, [("    U = la.expm(-1j * np.tensordot(n, s, axes=((0), (0))))", "    generator = sum(ni * si for ni, si in zip(n, s))\n    U = la.expm(-1j * generator)")], 'spin rotation sum')
ref('C20', G, [("    if spin is not None:\n        U = spin_rotation(np.pi * np.array([0, 1, 0]), spin)\n", "    if spin is not None:\n        U = spin_rotation([0, np.pi, 0], spin)\n")], 'TR')
ref('C20', G, [("    for a, n in norbs.items():\n        ranges[a] = slice(N, N + n)\n        N += n\n", "    for a in norbs:\n        start = N\n        N = start + norbs[a]\n        ranges[a] = slice(start, N)\n")], 'perm ranges')
ref('C20', G, [("    U = np.zeros((N, N), dtype=complex)\n    for a in norbs.keys():\n        if not norbs[a] == norbs[perm[a]]:\n            raise ValueError('Symmetry related sites must have the same number or orbitals')\n        U[ranges[a], ranges[perm[a]]] = onsite_action[a]\n", "    U = np.zeros((N, N), dtype=complex)\n    for a, b in perm.items():\n        if norbs[a] != norbs[b]:\n            raise ValueError('Symmetry related sites must have the same number or orbitals')\n        rows, cols = ranges[a], ranges[b]\n        U[rows, cols] = onsite_action[a]\n")], 'perm loop')
ref('C20', G, [("    if ph:\n        PH = particle_hole(dim)\n        gens.add(PH)\n    if generators:\n        return gens\n    else:\n        return generate_group(gens)\n", "    gens |= {particle_hole(dim)} if ph else set()\n    return gens if generators else generate_group(gens)\n")], 'hex tail')
ref('C20', G, [("    Mx = mirror([1, 0], spin=spin)\n    C4 = rotation(1/4, spin=spin)", "    Mx = mirror([0, 1], spin=spin)\n    C4 = rotation(-1/4, spin=spin)")], 'square other generators')
ref('C20', G, [("C4 = rotation(1/4, [1, 0, 0], spin=spin)", "C4 = rotation(1/4, [0, 0, 1], spin=spin)")], 'cubic C4z')
bug('C20', G, [("C4 = rotation(1/4, [1, 0, 0], spin=spin)", "C4 = rotation(1/2, [1, 0, 0], spin=spin)")], 'cubic C2')
bug('C20', G, [("I = inversion(3, U=(None if spin is None else spin_rotation(np.zeros(3), spin)))", "I = inversion(3, U=(None if spin is None else spin_rotation(np.pi * np.array([0, 0, 1]), spin)))")], 'cubic I spin')
bug('C20', G, [("I = inversion(3, U=(None if spin is None else spin_rotation(np.zeros(3), spin)))", "I = inversion(3)")], 'cubic I no spin')
bug('C20', G, [("C2x = rotation(1/2, [1, 0, 0], spin=spin)", "C2x = rotation(1/2, [0, 0, 1], spin=spin)")], 'hex C2z')

# ---- C27
K = 'kwant_rmt.py'
bug('C15', S, [("            new_ns = set_multiply({g, g.inv()}, symset)\n", "            new_ns = set_multiply(generate_group({g}), symset)\n")], 'powers of a non-symmetry pruned')
bug('C15', S, [("            new_ns |= set_multiply(symset, new_ns)\n", "            new_ns |= set_multiply(new_ns, new_ns)\n")], 'products of non-symmetries pruned')
bug('C15', S, [("            symset = generate_group({gr} | genset)", "            symset = generate_group({gr}) | symset")], 'not closed')
bug('C15', S, [("            genset.add(gr)\n", "            genset.add(g)\n")], 'generator without unitary')
bug('C15', S, [("    symmetry_candidates = deepcopy(candidates)\n", "    symmetry_candidates = candidates\n")], 'candidates consumed')
bug('C15', S, [("        g = min(symmetry_candidates)\n        symmetry_candidates -= {g}\n", "        g = symmetry_candidates.pop()\n")], 'arbitrary order')
bug('C15', S, [("    e.U = np.eye(Ps[0].shape[1])\n", "")], 'identity without unitary')
bug('C15', S, [("            genset.add(gr)\n", "            genset = {gr}\n")], 'last generator only')
bug('C15', S, [("            new_ns = set_multiply({g, g.inv()}, not_symmetries)\n", "            new_ns = set_multiply(not_symmetries, not_symmetries)\n")], 'products of failures pruned after a success')
bug('C15', S, [("        disc_sym = sorted(list(disc_sym))\n", "        disc_sym = list(disc_sym)\n")], 'order of the list')
bug('C15', S, [("        disc_sym, _ = discrete_symmetries(model, set(candidates), Ps=Ps,\n                                          generators=generators,", "        disc_sym, _ = discrete_symmetries(model, set(candidates), Ps=Ps,\n                                          generators=not generators,")], 'generators inverted')
bug('C15', S, [("candidates = generate_group({time_reversal(dim), particle_hole(dim), chiral(dim)})", "candidates = {time_reversal(dim), particle_hole(dim)}")], 'onsite candidates are no group')
bug('C15', S, [("            assert gr.apply(model) == model, (n, gr)\n            genset.add(gr)", "            assert gr.apply(model) == model, (n, gr)\n            if gr not in genset | set(candidates):\n                genset.add(gr)")], 'no generators')
ref('C15', S, [("            new_ns |= set_multiply(symset, new_ns)\n", "")], 'less pruning')
ref('C15', S, [("        g = min(symmetry_candidates)\n        symmetry_candidates -= {g}\n", "        g = sorted(symmetry_candidates)[0]\n        symmetry_candidates.discard(g)\n")], 'sorted')
ref('C15', S, [("            symset = generate_group({gr} | genset)\n            symmetry_candidates -= symset", "            symset = generate_group(genset)\n            symmetry_candidates = {c for c in symmetry_candidates if c not in symset}")], 'comprehension')
ref('C15', S, [("    while symmetry_candidates:\n        # For reproducibility, iterate over elements in sorted order\n        # instead of simply popping an arbitrary element\n        g = min(symmetry_candidates)\n        symmetry_candidates -= {g}\n", "    for g in sorted(symmetry_candidates):\n        if g not in symmetry_candidates:\n            continue\n        symmetry_candidates -= {g}\n")], 'for loop')
bug('C28', G, [("        newgroup -= group\n", "        newgroup -= oldgroup\n")], 'only the last step removed')
bug('C28', G, [("            oldgroup = newgroup.copy()\n        # if there were", "            oldgroup = newgroup.copy()\n            break\n        # if there were")], 'one round')
bug('C28', G, [("newgroup = {a * b for a, b in product(oldgroup, gens)}", "newgroup = {a * b for a, b in zip(oldgroup, gens)}")], 'zip')
bug('C28', G, [("newgroup = {a * b for a, b in product(oldgroup, gens)}", "newgroup = {a * a for a, b in product(oldgroup, gens)}")], 'squares')
bug('C28', G, [("    gens = set(gens.copy())\n    # here we keep all the elements generated so far\n    group = gens.copy()", "    gens = gens if isinstance(gens, set) else set(gens)\n    # here we keep all the elements generated so far\n    group = gens")], 'generators extended')
bug('C28', G, [("            if not g1 <= sg:", "            if not g1 & sg - sg1.keys():")], 'subgroups overlap')
bug('C28', G, [("                    newgen = gen | gen1\n", "                    newgen = gen1\n")], 'generators of the last step')
bug('C28', G, [("            min([len(sg) for sg in sgnew.keys()]) == len(group)):", "            max([len(sg) for sg in sgnew.keys()]) == len(group)):")], 'stops at full group')
bug('C28', G, [("    return {g * h for g, h in product(G, H)}", "    return {h * g for g, h in product(G, H)}")], 'order of set products')
ref('C28', G, [("newgroup = {a * b for a, b in product(oldgroup, gens)}\n        # only keep those that are new\n        newgroup -= group\n", "newgroup = set()\n        for a in oldgroup:\n            for b in gens:\n                c = a * b\n                if c not in group:\n                    newgroup.add(c)\n")], 'loops')
ref('C28', G, [("    while True:\n        # generate new elements by multiplying old elements with generators\n        newgroup = {a * b for a, b in product(oldgroup, gens)}\n        # only keep those that are new\n        newgroup -= group\n        # if there are any new, add them to group and set them as old\n        if len(newgroup) > 0:\n            group |= newgroup\n            oldgroup = newgroup.copy()\n        # if there were no new elements, we are done\n        else:\n            break\n    return set(group)", "    while oldgroup:\n        oldgroup = {b * a for a, b in product(oldgroup, gens)}.difference(group)\n        group.update(oldgroup)\n    return group")], 'while oldgroup, left products')
bug('C27', K, [("rng = ensure_rng(rng)\n    randn = rng.randn\n\n    # Generate", "rng = ensure_rng(rng)\n    randn = np.random.randn\n\n    # Generate")], 'global generator')
bug('C27', K, [("elif sym in ('D', 'BDI'):\n        h = 1j * randn(n, n)", "elif sym == 'D':\n        h = 1j * randn(n, n)")], 'BDI complex')
bug('C27', K, [("idx_sigma_x = np.arange(n) + 2 * sigma_z", "idx_sigma_x = np.arange(n) + sigma_z * 2 // 2")], 'CII index')
bug('C27', K, [("h += (sigma_z.reshape(-1, 1) * h[idx_sigma_x][:, idx_sigma_x].conj() *", "h += (sigma_z.reshape(-1, 1) * h[idx_sigma_x][:, idx_sigma_x] *")], 'CII conj')
bug('C27', K, [("    elif sym in ('C', 'CI'):\n        h -= tau_z", "    elif sym in ('C', 'CI'):\n        h += tau_z")], 'C sign')
bug('C27', K, [("    if c(sym):\n        h -=", "    if sym in ('AIII', 'BDI', 'CII', 'DIII'):\n        h -=")], 'CI chiral missing')
bug('C27', K, [("    elif sym == 'CII':\n        sigma_z", "    elif sym == 'CII' and n > 4:\n        sigma_z")], 'CII n=4')
bug('C27', K, [("elif p(sym) == 0:\n        h = randn(n, n) + 1j * randn(n, n)\n    # Symp", "elif p(sym) == 0:\n        h = randn(n, n) + 1j * np.random.randn(n, n)\n    # Symp")], 'circular global')
bug('C27', K, [("    if sym in ('AI', 'CI'):\n        s = np.dot(s.T, s)", "    if sym in ('AI', 'CI'):\n        s = np.dot(s.T.conj(), s)")], 'AI dagger')
bug('C27', K, [("diag = np.resize(diag, (2, n // 2)).T.flatten()", "diag = np.resize(diag, (2, n // 2)).flatten()")], 'CII diag order')
bug('C27', K, [("    h /= np.abs(h)\n    s *= h\n", "    s *= h\n")], 'not normalised')
bug('C27', K, [("s = np.dot(diag * s.T.conj(), s)", "s = np.dot(diag * s.T, s)")], 'chiral no conj')
bug('C27', K, [("            idx[-1] -= 1\n            idx[-2] += 1\n", "            idx[-1] -= 1\n")], 'row copy')
bug('C27', K, [("if sym in ('D', 'DIII', 'BDI'):\n        return 1\n", "if sym in ('D', 'DIII'):\n        return 1\n")], 'p table')
ref('C27', K, [("    h = h + h.T.conj()\n", "    h = np.conj(h.T) + h\n"), ("    h *= factor\n", "    h = factor * h\n")], 'hermitise')
ref('C27', K, [("        h -= tau_z.reshape(-1, 1) * h * tau_z\n        factor", "        h = h - tau_z[:, None] * h * tau_z[None, :]\n        factor")], 'chiral newaxis')
ref('C27', K, [("        h += tau_z.reshape(-1, 1) * h[idx_x][:, idx_x].conj() * tau_z\n", "        tau_y = np.kron(np.eye(n // 2), [[0, -1j], [1j, 0]])\n        h = h + tau_y @ h.conj() @ tau_y\n")], 'matrix product')
ref('C27', K, [("        h -= tau_z.reshape(-1, 1) * h[idx_x][:, idx_x].conj() * tau_z\n        factor", "        h -= np.diag(tau_z) @ h[np.ix_(idx_x, idx_x)].conj() @ np.diag(tau_z)\n        factor")], 'ix_')
ref('C27', K, [("    randn = rng.randn\n\n    # Generate a Gaussian matrix of appropriate dtype.\n    if sym == 'AI':\n        h = randn(n, n)\n", "    def randn(*shape):\n        return rng.standard_normal(size=shape)\n\n    # Generate\n    if sym == 'AI':\n        h = randn(n, n)\n")], 'standard_normal')
ref('C27', K, [("            tau_z = np.array((n // 2) * [1, -1])\n            idx_x = np.arange(n) + tau_z\n\n    if sym", "            tau_z = np.tile([1, -1], n // 2)\n            idx_x = np.array([i + 1 if i % 2 == 0 else i - 1 for i in range(n)])\n\n    if sym")], 'tile')
ref('C27', K, [("diag = 2 * rng.randint(2, size=(n // 2,)) - 1\n                diag = np.resize(diag, (2, n // 2)).T.flatten()", "diag = np.repeat(2 * rng.randint(2, size=n // 2) - 1, 2)")], 'repeat')
ref('C27', K, [("            idx = np.arange(n)\n            idx[-1] -= 1\n            idx[-2] += 1\n            s = s[idx]", "            order = list(range(n))\n            order[-1], order[-2] = order[-2], order[-1]\n            s = s[order]")], 'swap rows')
ref('C27', K, [("        s = np.dot(diag * s.T.conj(), s)\n", "        s = s.conj().T @ np.diag(diag) @ s\n")], 'diag matrix')
ref('C27', K, [("    h = np.diag(h).copy()\n    h /= np.abs(h)\n    s *= h\n", "    d = np.diag(h)\n    s = s * (d / np.absolute(d))\n")], 'phases')
ref('C27', K, [("    if sym in ('CI', 'AI', 'BDI'):\n        return 1\n    elif sym in ('CII', 'AII', 'DIII'):\n        return -1\n    else:\n        return 0\n", "    return {'CI': 1, 'AI': 1, 'BDI': 1, 'CII': -1, 'AII': -1, 'DIII': -1}.get(sym, 0)\n")], 't dict')

# ---- C25
LA = 'linalg.py'
bug('C25', LA, [("for i in range(dim - 1):\n            diag = null()", "for i in range(1, dim - 1):\n            diag = null()")], 'traceless misses first')
bug('C25', LA, [("diag[dim-1, dim-1] = -1", "diag[i+1, i+1] = -1")], 'other traceless basis')
bug('C25', LA, [("        if not (real and not antihermitian):\n", "        if not real:\n")], 'real antihermitian empty')
bug('C25', LA, [("    elif traceless:\n", "    elif traceless and dim > 1:\n")], 'traceless dim 1')
bug('C25', LA, [("it.combinations(list(range(dim)), 2)", "it.combinations(list(range(dim)), 2 if dim > 1 else 1)")], 'dim 1 error')
bug('C25', LA, [("            h[j, i] = -1j\n            yield coeff * set_type(h)", "            h[j, i] = -1j\n            yield set_type(h)")], 'coefficient missing')
bug('C25', LA, [("        def set_type(x):\n            return x.tocsr()\n", "        def set_type(x):\n            return x.tocsr().T\n")], 'sparse transposed')
bug('C25', LA, [("        def null():\n            return np.zeros((dim, dim), dtype=complex)", "        zero = np.zeros((dim, dim), dtype=complex)\n\n        def null():\n            return zero")], 'shared buffer')
ref('C25', LA, [("    for i, j in it.combinations(list(range(dim)), 2):\n        if not (real and antihermitian):\n            h = null()\n            h[i, j] = 1\n            h[j, i] = 1\n            yield coeff * set_type(h)\n        if not (real and not antihermitian):\n            h = null()\n            h[i, j] = 1j\n            h[j, i] = -1j\n            yield coeff * set_type(h)\n", "    for i in range(dim):\n        for j in range(i + 1, dim):\n            values = []\n            if not real or not antihermitian:\n                values.append(1)\n            if antihermitian or not real:\n                values.append(1j)\n            for x in values:\n                h = null()\n                h[i, j] = x\n                h[j, i] = np.conj(x)\n                yield coeff * set_type(h)\n")], 'nested loops')
ref('C25', LA, [("    if real and antihermitian:\n        pass\n    elif traceless:\n        for i in range(dim - 1):\n            diag = null()\n            diag[i, i] = 1\n            diag[dim-1, dim-1] = -1\n            yield coeff * set_type(diag)\n    else:\n        for i in range(dim):\n            diag = null()\n            diag[i, i] = 1\n            yield coeff * set_type(diag)\n", "    if not (real and antihermitian):\n        for i in range(dim - (1 if traceless else 0)):\n            diag = null()\n            diag[i, i] = 1\n            if traceless:\n                diag[-1, -1] = -1\n            yield coeff * set_type(diag)\n")], 'merged diagonals')
ref('C25', LA, [("        def null():\n            return scipy.sparse.lil_matrix((dim, dim), dtype=complex)\n\n        def set_type(x):\n            return x.tocsr()\n", "        def null():\n            return np.zeros((dim, dim), dtype=complex)\n\n        set_type = scipy.sparse.csr_matrix\n")], 'dense then csr')
ref('C25', LA, [("    # Off-diagonals\n    for i, j in it.combinations(list(range(dim)), 2):\n", "    yield from _off(dim, real, antihermitian, null, set_type, coeff)\n    return\n    for i, j in it.combinations(list(range(dim)), 2):\n"), ("def family_to_vectors(", "def _off(dim, real, antihermitian, null, set_type, coeff):\n    for i, j in zip(*np.triu_indices(dim, k=1)):\n        if not (real and antihermitian):\n            h = null()\n            h[i, j] = h[j, i] = 1\n            yield coeff * set_type(h)\n        if not (real and not antihermitian):\n            h = null()\n            h[[i, j], [j, i]] = [1j, -1j]\n            yield coeff * set_type(h)\n\n\ndef family_to_vectors(")], 'helper generator')
KC = 'kwant_continuum.py'
# --- C19
bug('C19', G, [("                              [1, s3, 0, 0, 0],\n                              [0, 0, -1, 0, 0]],", "                              [1, s3, 0, 0, 0],\n                              [0, 0, 1, 0, 0]],")], 'd sign')
bug('C19', G, [("s3 = np.sqrt(3)", "s3 = 3")], 'd factor')
bug('C19', G, [("                              [[0, 0, 1],\n                               [0, 0, 0],\n                               [-1, 0, 0]],", "                              [[0, 0, -1],\n                               [0, 0, 0],\n                               [1, 0, 0]],")], 'p sign')
bug('C19', G, [("np.arange(d - 1, -d, -2)", "np.arange(1 - d, d, 2)")], 'spin order')
bug('C19', G, [("(s + 1) * 2*i - i * (i + 1)", "(s + 1) * 2*i - i * (i + 2) + (1 if i < 3 else i - 2)")], 'high spin')
bug('C19', G, [("Sy = -1j*np.diag(diag, k=1) + 1j*np.diag(diag, k=-1)", "Sy = 1j*np.diag(diag, k=1) - 1j*np.diag(diag, k=-1)")], 'Sy sign')
bug('C19', G, [("np.array([np.eye(d), Sx, Sy, Sz])", "np.array([Sx, Sy, Sz, np.eye(d)])")], 'identity last')
bug('C19', KC, [("_msigma(1), _msigma(2), _msigma(3)]", "_msigma(1), _msigma(3), _msigma(2)]")], 'pauli order')
bug('C19', KC, [("zip('0xyz', pauli)", "zip('xyz0', pauli)")], 'sigma names')
bug('C19', KC, [("del extra_ns['I']\n", "")], 'I shadowed')
bug('C19', KC, [("'k_x k_y k_z', commutative=False", "'k_x k_y k_z'")], 'commuting momenta')
bug('C19', KC, [("{'kron': sympy.physics.quantum.TensorProduct", "{'kron': sympy.kronecker_product")], 'kron')
bug('C19', K, [("if sym in ('CI', 'AI', 'BDI'):\n        return 1", "if sym in ('CI', 'AI', 'BDI', 'D'):\n        return 1")], 't of D')
bug('C19', K, [("or sym == 'AIII'", "or sym == 'AII'")], 'c of AIII')
ref('C19', G, [("    Sx = np.diag(diag, k=1) + np.diag(diag, k=-1)\n    Sy = -1j*np.diag(diag, k=1) + 1j*np.diag(diag, k=-1)\n", "    plus = np.diag(2 * np.array(diag), k=1)\n    Sx = (plus + plus.T) / 2\n    Sy = (plus - plus.T) / 2j\n")], 'ladder')
ref('C19', G, [("    diag = [1/2*np.sqrt((s + 1) * 2*i - i * (i + 1)) for i in np.arange(1, d)]\n", "    m = np.arange(s, -s, -1)\n    diag = np.sqrt(s * (s + 1) - m * (m - 1)) / 2\n")], 'm form')
ref('C19', G, [("        return 1j * np.array([[[0, 0, 0],\n                               [0, 0, -1],\n                               [0, 1, 0]],\n                              [[0, 0, 1],\n                               [0, 0, 0],\n                               [-1, 0, 0]],\n                              [[0, -1, 0],\n                               [1, 0, 0],\n                               [0, 0, 0]]])", "        eps = np.zeros((3, 3, 3))\n        for a, b, c in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):\n            eps[a, b, c] = 1\n            eps[a, c, b] = -1\n        return -1j * eps")], 'epsilon')
ref('C19', KC, [("extra_ns.update({'sigma_{}'.format(c): p for c, p in zip('0xyz', pauli)})\n", "for _c, _p in zip('0xyz', pauli):\n    extra_ns['sigma_' + _c] = _p\n")], 'loop')
ref('C19', KC, [("del extra_ns['I']\ndel extra_ns['pi']\n", "for _n in ('I', 'pi'):\n    extra_ns.pop(_n)\n")], 'pop')
ref('C19', KC, [("extra_ns = sympy.abc._clash.copy()\n", "extra_ns = {k: v for k, v in sympy.abc._clash.items()\n            if k not in ('I', 'pi')}\n"), ("del extra_ns['I']\ndel extra_ns['pi']\n", "")], 'comprehension')
ref('C19', KC, [("'eye': sympy.eye, 'identity': sympy.eye})", "**dict.fromkeys(['eye', 'identity'], sympy.eye)})")], 'fromkeys')
ref('C19', K, [("    if (t(sym) and p(sym)) or sym == 'AIII':\n        return 1\n    else:\n        return 0\n", "    return int(bool(t(sym) * p(sym)) or sym == 'AIII')\n")], 'int')
ref('C19', G, [("    if d == 2 and l==1:\n", "    if l not in (1, 2) or d not in (2, 3):\n        raise ValueError('Only 2 and 3 dimensions are supported.')\n    if d == 2 and l==1:\n")], 'early raise')
HG = 'hamiltonian_generator.py'
# --- C29
bug('C29', HG, [("matrix[ranges[a], ranges[b]] = mat", "matrix[ranges[b], ranges[a]] = mat.T")], 'swapped block')
bug('C29', HG, [("block_basis = np.concatenate((block_basis, 1j*block_basis))\n", "if a == b:\n            block_basis = np.concatenate((block_basis, 1j*block_basis))\n")], 'real only between sites')
bug('C29', HG, [("term = term + term.T().conj()", "term = term + (term.T().conj() if a != b else term.conj())")], 'no transpose on the same site')
bug('C29', HG, [("for a, n in norbs.items():\n        ranges", "for a, n in sorted(norbs.items()):\n        ranges")], 'sorted sites')
bug('C29', HG, [("hopping_vectors += [(a, a, [0] * dim) for a in norbs]", "hopping_vectors += [(a, a, [0] * dim) for a in norbs if a in {h[0] for h in hopping_vectors}]")], 'onsite of used sites')
bug('C29', HG, [("reshape((n*m, n, m))", "reshape((n*m, m, n)).transpose(0, 2, 1)[:n*n]")], 'cut basis')
bug('C29', HG, [("zip(vec, momenta[:dim])])\n            factor", "zip(vec, _commutative_momenta[:dim])])\n            factor")], 'default momenta in the phase')
bug('C29', HG, [("term = BlochModel({bloch_coeff: matrix}, momenta=momenta[:dim])", "term = BlochModel({bloch_coeff: matrix})")], 'default momenta in Bloch form')
bug('C29', HG, [("BlochCoeff(np.array(vec), sympy.sympify(1))", "BlochCoeff(np.array(vec).astype(int), sympy.sympify(1))")], 'truncated vectors')
bug('C29', HG, [("            hopfamily = constrain_family(conserved, hopfamily)\n        family.extend(hopfamily)", "            hopfamily = constrain_family(conserved, hopfamily[:n*m])\n        family.extend(hopfamily)")], 'half constrained')
bug('C29', HG, [("    N = 0\n    if not any", "    N = 1\n    if not any")], 'offset')
bug('C29', HG, [("            if not term == {}:\n                family2.append(term)\n        family = remove", "            if not term == {} and len(family2) < 2 * N * N:\n                family2.append(term)\n        family = remove")], 'cut family')
bug('C29', HG, [("for term in family:\n            term = symm", "for term in family[1:]:\n            term = symm")], 'first term lost')
ref('C29', HG, [("            matrix = np.zeros((N, N), dtype=complex)\n            matrix[ranges[a], ranges[b]] = mat\n", "            matrix = _embed(mat, N, ranges[a], ranges[b])\n"), ("def symmetrize_monomial(", "def _embed(mat, N, rows, cols):\n    out = np.zeros((N, N), dtype=complex)\n    out[rows, cols] = mat\n    return out\n\n\ndef symmetrize_monomial(")], 'helper')
ref('C29', HG, [("        block_basis = np.eye(n*m, n*m).reshape((n*m, n, m))\n        block_basis = np.concatenate((block_basis, 1j*block_basis))\n", "        block_basis = []\n        for i in range(n):\n            for j in range(m):\n                for val in (1, 1j):\n                    mat = np.zeros((n, m), dtype=complex)\n                    mat[i, j] = val\n                    block_basis.append(mat)\n")], 'loops')
ref('C29', HG, [("            phase = sum([coordinate * momentum for coordinate, momentum in\n                         zip(vec, momenta[:dim])])\n            factor = e**(I*phase)\n", "            phase = 0\n            for i in range(dim):\n                phase += vec[i] * momenta[i]\n            factor = e**(I*phase)\n")], 'phase loop')
ref('C29', HG, [("term = term + term.T().conj()", "term += term.conj().T()")], 'order of adjoint')
ref('C29', HG, [("    ranges = dict()\n    for a, n in norbs.items():\n        ranges[a] = slice(N, N + n)\n        N += n\n", "    sizes = list(norbs.values())\n    N = sum(sizes)\n    ends = np.cumsum(sizes)\n    ranges = {a: slice(end - n, end) for (a, n), end in zip(norbs.items(), ends)}\n")], 'cumsum')
ref('C29', HG, [("    if onsites:\n        hopping_vectors = deepcopy(hopping_vectors)\n        hopping_vectors += [(a, a, [0] * dim) for a in norbs]\n", "    hoppings = list(hopping_vectors)\n    if onsites:\n        hoppings.extend((a, a, (0,) * dim) for a in norbs)\n"), ("for a, b, vec in hopping_vectors:", "for a, b, vec in hoppings:")], 'list copy')
# --- C17
bug('C17', HG, [("all_powers[i] = range(power + 1)", "all_powers[i] = range(power)")], 'range end')
bug('C17', HG, [("if sum(p) == total_power]", "if sum(p) <= total_power]")], 'sum below')
bug('C17', HG, [("        max_power = total_power\n        total_power = range(max_power + 1)\n\n    # Generate", "        max_power = total_power\n        total_power = range(1, max_power + 1)\n\n    # Generate")], 'no constant')
bug('C17', HG, [("degree_family = [Model({momentum_variable: matrix}, momenta=momenta)\n                             for momentum_variable, matrix\n                             in it.product(momentum_variables, matrix_basis(N))]", "degree_family = [Model({momentum_variable: matrix}, momenta=momenta)\n                             for momentum_variable, matrix\n                             in it.product(momentum_variables, matrix_basis(N, traceless=degree > 1))]")], 'traceless')
bug('C17', HG, [("in it.product(momentum_variables, matrix_basis(N))]", "in it.product(momentum_variables, matrix_basis(N, real=len(momenta) > 1))]")], 'real in 2D')
bug('C17', HG, [("        momentum_variables = continuum_variables(dim, degree, all_powers=all_powers, momenta=momenta)\n        degree_family = [Model({momentum_variable: matrix}, momenta=momenta)\n                             for momentum_variable, matrix\n                             in it.product(momentum_variables, matrix_basis(N))]", "        momentum_variables = continuum_variables(dim, degree, all_powers=all_powers)\n        degree_family = [Model({momentum_variable: matrix}, momenta=momenta)\n                             for momentum_variable, matrix\n                             in it.product(momentum_variables, matrix_basis(N))]")], 'momenta not passed')
bug('C17', HG, [("    all_powers = all_powers[:dim]\n", "    all_powers = all_powers[-dim:]\n")], 'last powers')
bug('C17', HG, [("for k, power in zip(momenta, p)])", "for k, power in zip(momenta, p[::-1])])")], 'reversed powers')
bug('C17', HG, [("        family += degree_family\n    return family\n", "        family = family or degree_family\n    return family\n")], 'first degree')
bug('C17', HG, [("for term, matrix in monomial.items()}) for monomial in", "for term, matrix in monomial.items()}, momenta=momenta[::-1]) for monomial in")], 'pairing momenta reversed')
bug('C17', HG, [("        if isinstance(power, int):\n            all_powers", "        if isinstance(power, int) or len(power) == 1:\n            power = power if isinstance(power, int) else power[0]\n            all_powers")], 'singleton list')
bug('C17', HG, [("_commutative_momenta[i] for i in momenta]\n    else", "_commutative_momenta[i] for i in sorted(momenta)]\n    else")], 'sorted indices')
ref('C17', HG, [("        all_powers = [total_power] * dim\n", "        all_powers = [range(total_power + 1) for _ in range(dim)]\n")], 'ranges')
ref('C17', HG, [("    momentum_variables = [sympy.Mul(*[sympy.Pow(k, power) for k, power in zip(momenta, p)])\n                          for p in powers]\n", "    momentum_variables = []\n    for p in powers:\n        term = sympy.Integer(1)\n        for k, n in zip(momenta, p):\n            term = term * k**n\n        momentum_variables.append(term)\n")], 'loop product')
ref('C17', HG, [("    for i, power in enumerate(all_powers):\n        if isinstance(power, int):\n            all_powers[i] = range(power + 1)\n", "    all_powers = [range(p + 1) if isinstance(p, int) else p for p in all_powers]\n")], 'comprehension')
ref('C17', HG, [("        degree_family = [Model({momentum_variable: matrix}, momenta=momenta)\n                             for momentum_variable, matrix\n                             in it.product(momentum_variables, matrix_basis(N))]\n", "        degree_family = _members(momentum_variables, list(matrix_basis(N)), momenta)\n"), ("def round_family(", "def _members(variables, matrices, momenta):\n    out = []\n    for mat in matrices:\n        for var in variables:\n            out.append(Model({var: mat}, momenta=momenta))\n    return out\n\n\ndef round_family(")], 'helper')
ref('C17', HG, [("        family += degree_family\n    return family\n", "        family.extend(degree_family)\n    return list(family)\n")], 'extend')
# --- C18
bug('C18', HG, [("phase*sym.U.conj())", "phase*sym.U)")], 'no conj')
bug('C18', HG, [("-sym.U.conj() + phase*np.eye(N)", "-sym.U + phase*np.eye(N)")], 'generator no conj')
bug('C18', HG, [("-sym.U.conj() + phase*np.eye(N)", "-sym.U.conj() - phase*np.eye(N)")], 'generator phase sign')
bug('C18', HG, [("phase*sym.U.conj())", "np.conj(phase)*sym.U.conj())")], 'conj phase')
bug('C18', HG, [("for sym, phase in zip(symmetries, phases):", "for sym, phase in zip(sorted(symmetries, key=lambda s: isinstance(s, ContinuousGroupGenerator)), phases):")], 'order of phases')
bug('C18', HG, [("ph = np.array([[0, 1], [ph_square, 0]])", "ph = np.array([[0, 1], [1, 0]])")], 'square ignored')
bug('C18', HG, [("ph = PointGroupElement(np.eye(dim), True, True", "ph = PointGroupElement(np.eye(dim), True, False")], 'ph flags')
bug('C18', HG, [("ph = PointGroupElement(np.eye(dim), True, True", "ph = PointGroupElement(-np.eye(dim), True, True")], 'ph space')
bug('C18', HG, [("np.block([[b0, 1j*m], [-1j*m.T.conj(), b0]])", "np.block([[b0, 1j*m], [1j*m.T.conj(), b0]])")], 'not Hermitian')
bug('C18', HG, [("    mbasis.extend([np.block([[b0, 1j*m], [-1j*m.T.conj(), b0]]) for m in matrix_basis(N)])\n", "    mbasis.extend([np.block([[b0, 1j*m], [-1j*m.T.conj(), b0]]) for m in matrix_basis(N, traceless=N > 1)])\n")], 'traceless imaginary')
bug('C18', HG, [("matrix[:N, N:] for term", "matrix[N:, :N] for term")], 'lower block')
bug('C18', HG, [("np.kron(ph, np.eye(N))", "np.kron(np.eye(N), ph)")], 'kron order')
ref('C18', HG, [("        if isinstance(sym, PointGroupElement):\n            sym.U = la.block_diag(sym.U, phase*sym.U.conj())\n        if isinstance(sym, ContinuousGroupGenerator):\n            sym.U = la.block_diag(sym.U, -sym.U.conj() + phase*np.eye(N))\n", "        hole = sym.U.conj()\n        if isinstance(sym, ContinuousGroupGenerator):\n            hole = phase*np.eye(N) - hole\n        else:\n            hole = phase * hole\n        zero = np.zeros((N, N))\n        sym.U = np.block([[sym.U, zero], [zero, hole]])\n")], 'block')
ref('C18', HG, [("    symmetries.append(ph)\n", "    symmetries = symmetries + [ph]\n")], 'concat')
ref('C18', HG, [("    ph = np.array([[0, 1], [ph_square, 0]])\n    ph = PointGroupElement(np.eye(dim), True, True, np.kron(ph, np.eye(N)))\n", "    one = np.eye(N)\n    ph = PointGroupElement(np.eye(dim), conjugate=True, antisymmetry=True,\n                           U=np.block([[0 * one, one], [ph_square * one, 0 * one]]))\n")], 'ph block')
ref('C18', HG, [("    mbasis = [np.block([[b0, m], [m.T.conj(), b0]]) for m in matrix_basis(N)]\n    mbasis.extend([np.block([[b0, 1j*m], [-1j*m.T.conj(), b0]]) for m in matrix_basis(N)])\n", "    mbasis = []\n    for m in matrix_basis(N):\n        for x in (m, 1j*m):\n            mbasis.append(np.block([[b0, x], [x.conj().T, b0]]))\n")], 'loop')
ref('C18', HG, [("    family = [Model({term: matrix[:N, N:] for term, matrix in monomial.items()}) for monomial in\n              family]\n    return [mon for mon in family if len(mon)]\n", "    result = []\n    for monomial in family:\n        data = {}\n        for term, matrix in monomial.items():\n            data[term] = matrix[:N, N:]\n        monomial = Model(data)\n        if monomial:\n            result.append(monomial)\n    return result\n")], 'loop end')

# ---- C10
bug('C10', HG, [("symmetries = deepcopy(list(symmetries))", "symmetries = list(symmetries)")], 'bdg modifies symmetries')
bug('C10', HG, [("        hopping_vectors = deepcopy(hopping_vectors)\n", "")], 'onsites appended to argument')
bug('C10', HG, [("        pg = deepcopy(pg)\n", "")], 'strict flag of caller')
bug('C10', HG, [("        pg = deepcopy(pg)\n", "        pg = list(pg)\n")], 'strict flag of caller (shallow)')
bug('C10', LA, [("scipy.sparse.csr_matrix(A, copy=True)", "scipy.sparse.csr_matrix(A)")], 'nullspace sparse in place')
bug('C10', 'symmetry_finder.py', [("symmetry_candidates = deepcopy(candidates)", "symmetry_candidates = candidates")], 'candidates modified')
bug('C10', 'kwant_linalg_lll.py', [("    mat = np.copy(mat)\n", "")], 'gram schmidt in place')
bug('C10', 'kwant_linalg_lll.py', [("    vecs = vecs_orig.copy()\n", "    vecs = vecs_orig\n")], 'lll in place')
bug('C10', G, [("    gens = set(gens.copy())\n", ""), ("    group = gens.copy()\n", "    group = gens\n")], 'generators extended')
bug('C10', M, [("        result[1] = result[1] + other\n        else:\n            raise NotImplementedError('Addition of {} with shape", "        result[1] = result[1] + other\n        else:\n            raise NotImplementedError('Addition of {} with shape")][:0] or [("            result = self.copy()\n            result[1] = result[1] + other\n        else:\n            raise NotImplementedError('Addition of {} with shape", "            result = self\n            result[1] = result[1] + other\n        else:\n            raise NotImplementedError('Addition of {} with shape")], 'constant added in place')
bug('C10', M, [("            # Addition of constants\n            result = self.copy()\n            result[1] = result[1] + other\n        else:\n            raise NotImplementedError('Addition of {} with shape", "            # Addition of constants\n            result = self.zeros_like()\n            result.data = dict(self.data)\n            result[1] = result[1]\n            result.data[1] += other\n        else:\n            raise NotImplementedError('Addition of {} with shape")], 'constant added to shared array')
bug('C10', M, [("        result.data = {key: copy(val) for key, val in self.items() if not norm(val) < tol}\n", "        result = self\n        for key in [k for k, v in self.items() if norm(v) < tol]:\n            del result[key]\n")], 'eliminate in place')
bug('C10', KC, [("    locals = {k: (sympy.Matrix(v) if isinstance(v, np.ndarray) else sympify(v))\n              for k, v in locals.items()}\n", "    for k, v in list(locals.items()):\n        locals[k] = (sympy.Matrix(v) if isinstance(v, np.ndarray) else sympify(v))\n")], 'locals of the caller')
bug('C10', G, [("        if antisymmetry:\n            result = -result\n        if U is not None:\n            result = U @ result @ U.T.conj()\n\n        return result\n\n    def identity", "        if antisymmetry:\n            result = -result\n        if U is not None:\n            U *= 1 / np.abs(np.linalg.det(U))**(1 / len(U))\n            result = U @ result @ U.T.conj()\n\n        return result\n\n    def identity")], 'U normalised in place')
ref('C10', HG, [("        hopping_vectors = deepcopy(hopping_vectors)\n        hopping_vectors += [(a, a, [0] * dim) for a in norbs]\n", "        hopping_vectors = list(hopping_vectors)\n        hopping_vectors.extend((a, a, [0] * dim) for a in norbs)\n")], 'shallow list')
ref('C10', HG, [("        hopping_vectors = deepcopy(hopping_vectors)\n        hopping_vectors += [(a, a, [0] * dim) for a in norbs]\n", "        hopping_vectors = [*hopping_vectors, *((a, a, [0] * dim) for a in norbs)]\n")], 'star list')
ref('C10', HG, [("        pg = deepcopy(pg)\n        for g in pg:\n            g._strict_eq = True\n", "        strict = []\n        for g in pg:\n            h = deepcopy(g)\n            h._strict_eq = True\n            strict.append(h)\n        pg = strict\n")], 'copy one by one')
ref('C10', HG, [("        pg = deepcopy(pg)\n        for g in pg:\n            g._strict_eq = True\n", "        pg = [PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U, _strict_eq=True) for g in pg]\n")], 'new elements')
ref('C10', LA, [("        A = scipy.sparse.csr_matrix(A, copy=True)\n", "        A = scipy.sparse.csr_matrix(A).copy()\n")], 'copy method')
ref('C10', M, [("        result.data = {key: copy(val) for key, val in self.items() if not norm(val) < tol}\n", "        result = self.copy()\n        for key in [k for k, v in self.items() if norm(v) < tol]:\n            del result[key]\n")], 'eliminate from copy')
ref('C10', 'symmetry_finder.py', [("symmetry_candidates = deepcopy(candidates)", "symmetry_candidates = [deepcopy(c) for c in candidates]")], 'copy one by one')
# ---- C11
bug('C11', M, [("result.data = {k: copy(v) for k, v in self.items()}", "result.data = {k: v for k, v in self.items()}")], 'shallow copy')
bug('C11', M, [("                result[key] = copy(other[key])\n", "                result[key] = other[key]\n")], 'add shares')
bug('C11', M, [("            result = other.copy()\n", "            result = other\n")], 'zero + model')
bug('C11', M, [("        if isinstance(other, Number) and other == 0:\n            result = self.copy()\n        elif ((isinstance(other, self.format) and self.shape == other.shape)\n              or (isinstance(other, Number) and self.shape == ())):\n            # Addition of constants\n            result = self.copy()\n            result[1] = result[1] + other\n        else:\n            raise NotImplementedError('Addition of {} with {} not", "        if isinstance(other, Number) and other == 0:\n            result = self\n        elif ((isinstance(other, self.format) and self.shape == other.shape)\n              or (isinstance(other, Number) and self.shape == ())):\n            # Addition of constants\n            result = self.copy()\n            result[1] = result[1] + other\n        else:\n            raise NotImplementedError('Addition of {} with {} not")], 'radd zero')
bug('C11', M, [("result.keep=self.keep.copy()", "result.keep = self.keep")], 'keep shared')
bug('C11', M, [("copy(val) for (hop, coeff), val in self.items()}", "val for (hop, coeff), val in self.items()}")], 'bloch rotation shares')
bug('C11', M, [("{key: copy(val) for key, val in self.items() if not norm(val) < tol}", "{key: np.asarray(val) for key, val in self.items() if not norm(val) < tol}")], 'view of ndarray')
bug('C11', M, [("nsimplify=nsimplify): copy(val)\n", "nsimplify=nsimplify): val\n")], 'tomodel shares')
ref('C11', M, [("result.data = {k: copy(v) for k, v in self.items()}", "result.data = {}\n        for k, v in self.items():\n            result.data[k] = copy(v)")], 'loop')
ref('C11', M, [("result.data = {k: copy(v) for k, v in self.items()}", "result.data = dict(zip(self.keys(), map(copy, self.values())))")], 'map')
ref('C11', M, [("result.data = {k: copy(v) for k, v in self.items()}", "result.data = {k: v.copy() for k, v in self.items()}")], 'method')
ref('C11', M, [("result.keep=self.keep.copy()", "result.keep = set(self.keep)")], 'set')
ref('C11', M, [("            for key in self.keys() & other.keys():\n                result[key] = self[key] + other[key]\n            for key in self.keys() - other.keys():\n                result[key] = copy(self[key])\n            for key in other.keys() - self.keys():\n                result[key] = copy(other[key])\n", "            for key in self.keys() | other.keys():\n                result[key] = self[key] + other[key]\n")], 'sum of all keys')
# ---- C12
CONVC = "    try:\n        stored_value = converter.pop(list, None)\n        converter[list] = lambda x: sympy.Matrix(x)\n        hamiltonian = sympy.sympify(expr, locals=locals)\n        # if input is for example ``[[k_x * A(x) * k_x]]`` after the first\n        # sympify we are getting list of sympy objects, so we call sympify\n        # second time to obtain ``sympy`` matrices.\n        hamiltonian = sympy.sympify(hamiltonian)\n        # A workaround for qsymm issue #48\n        hamiltonian = hamiltonian.subs(sympy.sympify('e'), e)\n    finally:\n        if stored_value is not None:\n            converter[list] = stored_value\n        else:\n            del converter[list]\n"
CORE = "hamiltonian = sympy.sympify(expr, locals=locals)\n        hamiltonian = sympy.sympify(hamiltonian)\n        hamiltonian = hamiltonian.subs(sympy.sympify('e'), e)\n"
bug('C12', KC, [(CONVC, "    stored_value = converter.pop(list, None)\n    converter[list] = lambda x: sympy.Matrix(x)\n    " + CORE.replace('\n        ', '\n    ') + "    if stored_value is not None:\n        converter[list] = stored_value\n    else:\n        del converter[list]\n")], 'no finally')
bug('C12', KC, [(CONVC, "    try:\n        stored_value = converter.pop(list, None)\n        converter[list] = lambda x: sympy.Matrix(x)\n        " + CORE + "    except (ValueError, TypeError):\n        converter.pop(list)\n        raise\n    if stored_value is not None:\n        converter[list] = stored_value\n    else:\n        del converter[list]\n")], 'only some exceptions')
bug('C12', KC, [("        else:\n            del converter[list]\n", "")], 'left defined')
bug('C12', KC, [("        if stored_value is not None:\n            converter[list] = stored_value\n        else:\n            del converter[list]\n", "        del converter[list]\n")], 'user conversion lost')
bug('C12', KC, [("    try:\n        stored_value = converter.pop(list, None)\n        converter[list] = lambda x: sympy.Matrix(x)\n        hamiltonian", "    stored_value = converter.pop(list, None)\n    converter[list] = lambda x: sympy.Matrix(x)\n    expr = sympy.sympify(expr, locals=locals) if not isinstance(expr, str) else expr\n    try:\n        hamiltonian")], 'call before try')
bug('C12', KC, [("    for k, v in extra_ns.items():\n        locals.setdefault(k, v)\n", "    extra_ns.update(locals)\n    locals = extra_ns\n")], 'namespace polluted')
bug('C12', KC, [("    if locals is None:\n        locals = {}\n\n    for k in locals:", "    for k in locals:"), ("def sympify(expr, locals=None):", "def sympify(expr, locals={}):"), ("    locals = {k: (sympy.Matrix(v) if isinstance(v, np.ndarray) else sympify(v))\n              for k, v in locals.items()}\n", "")], 'mutable default')
bug('C12', 'kwant_rmt.py', [("    rng = ensure_rng(rng)\n", "    np.random.seed(rng if isinstance(rng, int) else None)\n    rng = ensure_rng(rng)\n")], 'global seed')
bug('C12', LA, [("    if sparse is None:\n        sparse = isinstance(A, scipy.sparse.spmatrix)\n    if sparse:", "    if sparse is None:\n        sparse = isinstance(A, scipy.sparse.spmatrix)\n    warnings.simplefilter('ignore')\n    if sparse:")], 'warning filter')
ref('C12', KC, [(CONVC, "    stored_value = converter.get(list)\n    converter[list] = sympy.Matrix\n    try:\n        " + CORE + "    finally:\n        if stored_value is None:\n            del converter[list]\n        else:\n            converter[list] = stored_value\n")], 'get')
ref('C12', KC, [(CONVC, "    missing = list not in converter\n    stored_value = converter.get(list)\n    converter[list] = sympy.Matrix\n    try:\n        " + CORE + "    finally:\n        if missing:\n            converter.pop(list, None)\n        else:\n            converter[list] = stored_value\n")], 'flag')
ref('C12', KC, [(CONVC, "    with _lists_as_matrices():\n        " + CORE), ("def sympify(expr, locals=None):", "from contextlib import contextmanager\n\n\n@contextmanager\ndef _lists_as_matrices():\n    stored_value = converter.pop(list, None)\n    converter[list] = lambda x: sympy.Matrix(x)\n    try:\n        yield\n    finally:\n        if stored_value is not None:\n            converter[list] = stored_value\n        else:\n            del converter[list]\n\n\ndef sympify(expr, locals=None):")], 'context manager')
ref('C12', KC, [(CONVC, "    stored_value = converter.pop(list, None)\n    converter[list] = lambda x: sympy.Matrix(x)\n    try:\n        hamiltonian = _parse(expr, locals)\n    finally:\n        _restore(stored_value)\n"), ("def sympify(expr, locals=None):", "def _parse(expr, locals):\n    hamiltonian = sympy.sympify(sympy.sympify(expr, locals=locals))\n    return hamiltonian.subs(sympy.sympify('e'), e)\n\n\ndef _restore(stored_value):\n    if stored_value is not None:\n        converter[list] = stored_value\n    else:\n        del converter[list]\n\n\ndef sympify(expr, locals=None):")], 'helpers')
ref('C12', LA, [("    if sparse is None:\n        sparse = isinstance(A, scipy.sparse.spmatrix)\n    if sparse:", "    if sparse is None:\n        with warnings.catch_warnings():\n            warnings.simplefilter('ignore')\n            sparse = isinstance(A, scipy.sparse.spmatrix)\n    if sparse:")], 'scoped filter')
# ---- C13
bug('C13', M, [("@lru_cache(maxsize=1000, typed=True)\ndef _symbol_normalizer", "@lru_cache(maxsize=1000)\ndef _symbol_normalizer")], 'untyped symbols')
bug('C13', M, [("@lru_cache(maxsize=1000, typed=True)\ndef _bloch_normalizer", "@lru_cache(maxsize=1000)\ndef _bloch_normalizer")], 'untyped bloch')
bug('C13', G, [("def spin_matrices(s,", "@lru_cache(maxsize=100)\ndef spin_matrices(s,")], 'shared spin matrices')
bug('C13', G, [("    def inv(self):", "    @lru_cache(maxsize=1000)\n    def inv(self):")], 'cached by weak equality')
bug('C13', M, [("        result = self.zeros_like()\n        # This is faster", "        result = _empty(self)\n        # This is faster"), ("def _shape_and_format(val):", "@lru_cache()\ndef _empty(model):\n    return model.zeros_like()\n\n\ndef _shape_and_format(val):")], 'cached empty')
ref('C13', G, [("@lru_cache(maxsize=10000)\ndef _mul", "@lru_cache(maxsize=None, typed=True)\ndef _mul")], 'size')
ref('C13', M, [("    return sympy.expand_power_exp(sympy.sympify(key, locals={'e': e}))", "    key = sympy.sympify(key, locals={'e': e})\n    return sympy.expand_power_exp(key)")], 'two steps')
ref('C13', LA, [("def commutator(A, B):", "def _unused(A):\n    return A\n\n\ndef commutator(A, B):")], 'helper')

# --- C22
HGF = 'hamiltonian_generator.py'
bug('C22', G, [("    if U is not None and spin is not None:\n        raise ValueError('Only one of `U` and `spin` may be provided.')\n\n    angle", "    if U is not None and spin and axis is None:\n        raise ValueError('Only one of `U` and `spin` may be provided.')\n\n    angle")], 'rotation: only checked in 2d')
bug('C22', G, [('if ph and spin is not None:', 'if ph and spin:')], 'square: spin 0 accepted')
bug('C22', G, [('not (_is_hermitian(R) and _is_antisymmetric(R))', 'not (_is_hermitian(R) or _is_antisymmetric(R))')], 'CGG: antihermitian accepted')
bug('C22', 'kwant_rmt.py', [('if (c(sym) or t(sym) == -1 or p(sym) == -1):', 'if (t(sym) == -1 or p(sym) == -1):')], 'gaussian: odd chiral sizes')
bug('C22', 'kwant_rmt.py', [("if sym == 'CII' and n % 4:", "if sym == 'CII' and n % 4 == 1:")], 'gaussian CII')
bug('C22', 'kwant_rmt.py', [('(0 <= charge <= n // 2)', '(charge <= n // 2)')], 'circular negative charge')
bug('C22', 'model.py', [('''            if self.momenta != other.momenta:
                raise ValueError("Can only add Models with the same momenta")
            result = self.zeros_like()''', '''            if set(self.momenta) != set(other.momenta):
                raise ValueError("Can only add Models with the same momenta")
            result = self.zeros_like()''')], 'add: momenta order ignored')
bug('C22', 'linalg.py', [("if len(conjugate) != len(HL):", "if len(conjugate) < len(HL):")], 'solve_mat_eqn: too many conjugations') if 0 else None
bug('C22', HGF, [('if ph_square not in (-1, 1):', 'if not ph_square:')], 'ph_square=2')
bug('C22', HGF, [('if (not bloch_model) and any(isinstance(g.R, ta.ndarray_float) for g in pg):', 'if (not bloch_model) and all(isinstance(g.R, ta.ndarray_float) for g in pg):')], 'bloch_family: all')
bug('C22', HGF, [('if not all([(g.R is None or np.allclose(g.R, np.zeros_like(g.R))) for g in conserved]):', 'if not any([(g.R is None or np.allclose(g.R, np.zeros_like(g.R))) for g in conserved]):') ], 'bloch_family: any conserved')
bug('C22', G, [('if not set(perm.keys()) == set(perm.values()) == set(norbs.keys()):', 'if not set(perm.values()) >= set(norbs.keys()):')], 'permutation: superset')
bug('C22', G, [('if not norbs[a] == norbs[perm[a]]:', 'if not norbs[a] >= norbs[perm[a]]:')], 'permutation: orbitals') if 0 else None
bug('C22', 'kwant_continuum.py', [('or not k.isidentifier() or keyword.iskeyword(k)', 'or not k.isidentifier()')], 'sympify: keyword as name')
bug('C22', 'model.py', [('''        if not (isinstance(hop, np.ndarray) and isinstance(coeff, sympy.Expr)):''', '''        if not (isinstance(hop, np.ndarray) or isinstance(coeff, sympy.Expr)):''')], 'BlochCoeff or')
ref('C22', G, [("""    if U is not None and spin is not None:
        raise ValueError('Only one of `U` and `spin` may be provided.')

    angle""", """    _exclusive(U, spin)
    angle"""), ("def rotation(angle", """def _exclusive(*args):
    if all(x is not None for x in args):
        raise ValueError('Only one of `U` and `spin` may be provided.')


def rotation(angle""")], 'helper for the exclusive arguments')
ref('C22', HGF, [("""    if ph_square not in (-1, 1):
        raise ValueError('Particle-hole operator must square to +1 or -1.')
""", ""), ("    # Build ph operator\n", """    if not abs(ph_square) == 1:
        raise ValueError('Particle-hole operator must square to +1 or -1.')
    # Build ph operator
""")], 'later test of ph_square')
ref('C22', 'model.py', [('''            if self.momenta != other.momenta:
                raise ValueError("Can only add Models with the same momenta")
            result = self.zeros_like()''', '''            self._same_momenta(other, 'add')
            result = self.zeros_like()'''), ('    def __add__(self, other):', '''    def _same_momenta(self, other, what):
        if not tuple(self.momenta) == tuple(other.momenta):
            raise ValueError("Can only {} Models with the same momenta".format(what))

    def __add__(self, other):''')], 'helper for momenta')
ref('C22', 'kwant_continuum.py', [('''    for k in locals:
        if (not isinstance(k, str)
            or not k.isidentifier() or keyword.iskeyword(k)):
            raise''', '''    for k in locals.keys():
        valid = isinstance(k, str) and k.isidentifier() and not keyword.iskeyword(k)
        if not valid:
            raise''')], 'valid names')
ref('C22', 'kwant_rmt.py', [('''    if sym not in sym_list:
        raise ValueError('Unknown symmetry type.')
    if (c(sym) or t(sym) == -1 or p(sym) == -1):
        if n % 2:
            raise ValueError''', '''    if all(sym != s for s in sym_list):
        raise ValueError('Unknown symmetry type.')
    if c(sym) or -1 in (t(sym), p(sym)):
        if n % 2 == 1:
            raise ValueError''')], 'size test')

# --- C14
L3 = 'kwant_linalg_lll.py'
bug('C14', S, [('            assert gr.apply(model) == model, (n, gr)\n', '')], 'discrete: no test')
bug('C14', S, [('assert gr.apply(model) == model, (n, gr)', 'assert g.apply(model) == model, (n, gr)')], 'discrete: candidate without U')
bug('C14', S, [('assert gr.apply(model) == model, (n, gr)', 'assert (gr.apply(model) == model, (n, gr))')], 'discrete: tuple assert')
bug('C14', S, [('            assert gr.apply(model) == model, (n, gr)', '            if verbose:\n                assert gr.apply(model) == model, (n, gr)')], 'discrete: only verbose')
bug('C14', S, [('assert gr.apply(model) == model, (n, gr)', 'assert gr.apply(model).allclose(model, atol=1e-2), (n, gr)')], 'discrete: loose')
bug('C14', S, [('assert gr.apply(model) == model, (n, gr)', 'assert gr.antisymmetry or gr.apply(model) == model, (n, gr)')], 'discrete: not antisymmetries')
bug('C14', S, [('assert trf.allclose(0, atol=1e-6), (trf, g)', 'assert trf.allclose(0, atol=1e-1), (trf, g)')], 'continuous: loose')
bug('C14', S, [('        assert trf.allclose(0, atol=1e-6), (trf, g)\n', '')], 'continuous: no test')
bug('C14', S, [('        trf = g.apply(model)\n        assert trf', '        trf = g.apply(reduced_hamiltonians[0])\n        assert trf')], 'continuous: reduced model')
bug('C14', S, [('        # Check that it is a symmetry\n        trf = g.apply(model)\n        assert trf.allclose(0, atol=1e-6), (trf, g)\n    return PrettyList(symmetries)', '    # Check that it is a symmetry\n    if symmetries:\n        trf = g.apply(model)\n        assert trf.allclose(0, atol=1e-6), (trf, g)\n    return PrettyList(symmetries)')], 'continuous: only last')
bug('C14', S, [('    assert check_bravais_symmetry(neighbors, gens)\n    if gen', '    if gen')], 'bravais: no test')
bug('C14', S, [('''    assert check_bravais_symmetry(neighbors, gens)
    if generators:
        return gens
''', '''    if generators:
        return gens
    assert check_bravais_symmetry(neighbors, gens)
    if False:
        pass
''')], 'bravais: generators untested')
bug('C14', S, [('''    assert check_bravais_symmetry(neighbors, gens)
    if generators''', '''    assert check_bravais_symmetry(neighbors, {inversion(dim)})
    if generators''')], 'bravais: only inversion tested')
bug('C14', S, [('    assert check_bravais_symmetry(neighbors, gens)\n', '    if verbose:\n        assert check_bravais_symmetry(neighbors, gens)\n')], 'bravais: only verbose')
bug('C14', S, [('''        if not neighbors == r_neighbors:
            return False
    else:
        return True''', '''        return neighbors == r_neighbors
    return True''')], 'lattice: only the first')
bug('C14', S, [('''        if not neighbors == r_neighbors:
            return False
    else:
        return True''', '''        ok = neighbors == r_neighbors
    return ok''')], 'lattice: only the last')
bug('C14', L3, [('''    if not is_c_reduced(vecs, c):
        raise RuntimeError('LLL algorithm instability.')
''', '')], 'lll: no reducedness')
bug('C14', L3, [('not is_c_reduced(vecs, c):', 'not is_c_reduced(vecs_orig, c):')], 'lll: original')
bug('C14', L3, [('''    if not np.allclose(np.round(coefs), coefs, atol=1e-6):
        raise RuntimeError('LLL algorithm instability.')
''', '')], 'lll: no integrality')
bug('C14', L3, [('if not np.allclose(np.round(coefs), coefs, atol=1e-6):', 'if not np.allclose(np.round(coefs), coefs, atol=0.1):')], 'lll: loose')
bug('C14', S, [('disc_sym = sorted(list(disc_sym))', 'disc_sym = sorted(set(candidates))')], 'symmetries: candidates returned')
ref('C14', S, [('            assert gr.apply(model) == model, (n, gr)\n', '            transformed = gr.apply(model)\n            if not (model == transformed):\n                raise AssertionError((n, gr))\n')], 'if raise')
ref('C14', S, [('            assert gr.apply(model) == model, (n, gr)\n', '            _verify(gr, model)\n'), ('def _find_unitary(model,', 'def _verify(op, ham):\n    result = op.apply(ham)\n    assert result == ham\n\n\ndef _find_unitary(model,')], 'helper')
ref('C14', S, [('        symmetries.append(g)\n        # Check that it is a symmetry\n        trf = g.apply(model)\n        assert trf.allclose(0, atol=1e-6), (trf, g)\n', '        if not g.apply(model).allclose(0, atol=1e-6):\n            raise AssertionError(g)\n        symmetries.append(g)\n')], 'check before append')
ref('C14', S, [('''        if not neighbors == r_neighbors:
            return False
    else:
        return True''', '''        if neighbors != r_neighbors:
            return False
    return True''')], 'lattice')
ref('C14', S, [('''    for g in group:
        r_neighbors = {BlochCoeff(g.R @ hop, coeff) for (hop, coeff) in neighbors}
        if not neighbors == r_neighbors:
            return False
    else:
        return True''', '''    return all(
        {BlochCoeff(g.R @ hop, coeff) for (hop, coeff) in neighbors} == neighbors
        for g in group
    )''')], 'lattice all')
ref('C14', S, [('''    assert check_bravais_symmetry(neighbors, gens)
    if generators:
        return gens
    else:
        return generate_group(gens)''', '''    if not check_bravais_symmetry(neighbors, gens):
        raise AssertionError
    return gens if generators else generate_group(gens)''')], 'bravais')
ref('C14', L3, [('''    if not np.allclose(np.round(coefs), coefs, atol=1e-6):
        raise RuntimeError('LLL algorithm instability.')
    if not is_c_reduced(vecs, c):
        raise RuntimeError('LLL algorithm instability.')
    return vecs, np.array(np.round(coefs), int)''', '''    rounded = np.round(coefs)
    if not (is_c_reduced(vecs, c) and np.allclose(coefs, rounded, atol=1e-6)):
        raise RuntimeError('LLL algorithm instability.')
    return vecs, np.array(rounded, int)''')], 'lll')

# --- C16
bug('C16', HGF, [('                    if symmetry.apply(member) != member:', '                    if symmetry.apply(member) != family[0]:')], 'check: first member')
bug('C16', HGF, [('                if applied != {}:\n                    fail()', '                if symmetry.R is not None and applied != {}:\n                    fail()')], 'check: onsite generators skipped')
bug('C16', HGF, [('                if applied != {}:\n                    fail()', '                if applied != {}:\n                    fail()\n            break')], 'check: first member only')
bug('C16', HGF, [('symmetry.apply(member).around(num_digits) != member.around(num_digits)', 'member.around(num_digits) != member.around(num_digits)')], 'check: rounded trivial')
bug('C16', HGF, [('                if applied != {}:\n                    fail()', '                if num_digits is None and applied != {}:\n                    fail()')], 'check: rounded continuous skipped')
bug('C16', HGF, [('    for member in it.chain(family, *rotated_families):', '    for member in it.chain(*rotated_families):')], 'constrain: keys of members lost')
bug('C16', HGF, [('    for member in it.chain(family, *rotated_families):', '    for member in it.chain(family, rotated_families[0]):')], 'constrain: keys of first symmetry')
bug('C16', HGF, [('        if isinstance(symmetry, PointGroupElement):\n            # Only need', '        if symmetry.R is not None:\n            # Only need')], 'constrain: subtract for rotations')
bug('C16', HGF, [('        constraint_matrices.append(constraint_matrix)\n', '        constraint_matrices = [constraint_matrix]\n')], 'constrain: last only')
bug('C16', HGF, [('        rotated_family = rotated_families[i]\n', '        rotated_family = rotated_families[0]\n')], 'constrain: first image')
bug('C16', HGF, [('family_member = sum([val * family[i] for i, val in enumerate(basis_vector)])', 'family_member = sum([val * family[-i] for i, val in enumerate(basis_vector)])')], 'constrain: order of members')
bug('C16', HGF, [('family_member = sum([val * family[i] for i, val in enumerate(basis_vector)])', 'family_member = sum([val * family[i] for i, val in enumerate(null_basis[0])])')], 'constrain: first solution')
bug('C16', HGF, [('    if not np.any(constraint_matrix):\n        return family', '    if not np.any(constraint_matrix) or len(symmetries) > 2:\n        return family')], 'constrain: unconstrained')
bug('C16', HGF, [('    rotated_families = [[symmetry.apply(monomial) for monomial in family]\n                                                  for symmetry in symmetries]', '    rotated_families = [[symmetry.apply(monomial) for monomial in family]\n                                                  for symmetry in symmetries[:2]]\n    symmetries = symmetries[:2]')], 'constrain: two symmetries')
bug('C16', HGF, [('* (1/len(symmetries))', '* (1/max(len(symmetries), 2))')], 'average')
bug('C16', HGF, [('return sum([sym.apply(monomial) for sym in symmetries]) * (1/len(symmetries))', 'return (monomial + sum([sym.apply(monomial) for sym in symmetries])) * (1/(len(symmetries) + 1))')], 'average with itself')
ref('C16', HGF, [("""                if num_digits is None:
                    if symmetry.apply(member) != member:
                        fail()
                else:
                    if symmetry.apply(member).around(num_digits) != member.around(num_digits):
                        fail()
""", """                image, original = symmetry.apply(member), member
                if num_digits is not None:
                    image, original = image.around(num_digits), member.around(num_digits)
                if not image == original:
                    fail()
""")], 'check')
ref('C16', HGF, [('    for symmetry in symmetries:\n        # Iterate over all members of the family\n        for member in family:', '    for symmetry, member in it.product(symmetries, family):\n        if True:')], 'check product')
ref('C16', HGF, [("""    rotated_families = [[symmetry.apply(monomial) for monomial in family]
                                                  for symmetry in symmetries]
""", """    rotated_families = []
    for symmetry in symmetries:
        rotated_families.append([symmetry.apply(monomial) for monomial in family])
"""), ('    for i, symmetry in enumerate(symmetries):\n        # In block', '    for symmetry, rotated_family in zip(symmetries, rotated_families):\n        # In block'), ('        rotated_family = rotated_families[i]\n', '')], 'constrain zip')
ref('C16', HGF, [("""    Hamiltonian_family = []
    for basis_vector in null_basis:
        family_member = sum([val * family[i] for i, val in enumerate(basis_vector)])
        # Eliminate entries that vanish
        if family_member:
            Hamiltonian_family.append(family_member)
    return Hamiltonian_family""", """    members = (_combine(vector, family) for vector in null_basis)
    return [member for member in members if member]


def _combine(vector, family):
    return sum(val * term for val, term in zip(vector, family))""")], 'constrain comprehension')
ref('C16', HGF, [('return sum([sym.apply(monomial) for sym in symmetries]) * (1/len(symmetries))', 'total = sum(sym.apply(monomial) for sym in symmetries)\n    return total / len(symmetries)')], 'average')

# --- C26
bug('C26', LA, [('flatten(mat @ hL - hR @ mat)', 'flatten(mat @ hR - hL @ mat)')], 'sides')
bug('C26', LA, [('flatten(mat @ hL - hR @ mat.conj())', 'flatten(mat.conj() @ hL - hR @ mat)')], 'conjugated side')
bug('C26', LA, [('flatten(mat @ hL - hR @ mat.conj())', 'flatten(mat @ hL - hR @ mat.T)')], 'transpose for conjugate')
bug('C26', LA, [('conjugate = [conjugate] * len(HL)', 'conjugate = [conjugate] + [False] * (len(HL) - 1)')], 'conjugate first only')
bug('C26', LA, [('N = dim**2 - (1 if traceless else 0)\n    if N == 0:', 'N = dim**2 - 1\n    if N == 0:')], 'one by one')
bug('C26', S, [('PsL = [P.conj() for P in Ps]', 'PsL = Ps')], 'left projectors')
bug('C26', S, [('HLs = [[P[0].T.conj() @ hL @ P[0] for hL in HL] for P in PsL]', 'HLs = [[P[0].T.conj() @ hL @ P[0] for hL in HL] for P in Ps]')], 'left projectors 2')
bug('C26', S, [('HRs = [[P[0].T.conj() @ hR @ P[0] for hR in HR] for P in Ps]', 'HRs = [[P[0].T.conj() @ hR @ P[0] for hR in HR] for P in PsL]')], 'right projectors')
bug('C26', S, [('HRs = [[P[0].T.conj() @ hR @ P[0] for hR in HR] for P in Ps]', 'HRs = [[P[0].T @ hR @ P[0] for hR in HR] for P in Ps]')], 'no dagger')
bug('C26', S, [('        HR.append(matL)\n        matR = Rmodel[key]\n        HL.append(matR)\n', '        HL.append(matL)\n        matR = Rmodel[key]\n        HR.append(matR)\n')], 'exchanged families')
bug('C26', S, [('block_dsymm = solve_mat_eqn(HLs[j], HRs[i], hermitian', 'block_dsymm = solve_mat_eqn(HLs[i], HRs[j], hermitian')], 'indices')
bug('C26', S, [('solve_mat_eqn(HLs[j], HRs[i], hermitian=False', 'solve_mat_eqn(HLs[j][:1], HRs[i][:1], hermitian=False')], 'first term only')
bug('C26', S, [('solve_mat_eqn(HLs[j], HRs[i], hermitian=False', 'solve_mat_eqn(HLs[j], HRs[i], hermitian=True')], 'hermitian only')
bug('C26', S, [('        if squares_to_1 and j>i:\n', '        if j>i:\n')], 'lower blocks')
bug('C26', S, [('squares_to_1 = g * g == g.identity()', 'squares_to_1 = True')], 'squares')
bug('C26', S, [('pi @ block, pj, axes=((0, 2), (0, 2))', 'pi @ block, pj.conj(), axes=((0, 2), (0, 2))')], 'antiunitary projector')
bug('C26', S, [('pi @ block, pj.conj(), axes=((0, 2), (0, 2))', 'pi @ block, pj, axes=((0, 2), (0, 2))')], 'unitary projector')
bug('C26', S, [('pi, pj = projectors[i], projectors[j]', 'pi, pj = projectors[j], projectors[i]')], 'exchanged projectors')
bug('C26', S, [('pi @ block, pj.conj(), axes=((0, 2), (0, 2))', 'pi[:1] @ block, pj[:1].conj(), axes=((0, 2), (0, 2))')], 'first copy only')
bug('C26', S, [('return PointGroupElement(g.R, g.conjugate, g.antisymmetry, S)', 'return PointGroupElement(g.R, g.antisymmetry, g.conjugate, S)')], 'flags')
bug('C26', S, [('            return block_dsymm, block_dsymm.T\n', '            return block_dsymm, block_dsymm.T.conj()\n')], 'antiunitary pair')
ref('C26', S, [('HRs = [[P[0].T.conj() @ hR @ P[0] for hR in HR] for P in Ps]\n    HLs = [[P[0].T.conj() @ hL @ P[0] for hL in HL] for P in PsL]',
  'def red(P, hs):\n        p = P[0]\n        pd = np.conj(p).T\n        return [pd @ (h @ p) for h in hs]\n    HRs = [red(P, HR) for P in Ps]\n    HLs = [red(P, HL) for P in PsL]')], 'helper')
ref('C26', S, [('''        HR.append(matL)
        matR = Rmodel[key]
        HL.append(matR)
''', '''        matR = Rmodel[key]
        HL.append(matR)
        HR += [matL]
''')], 'order')
ref('C26', S, [('''            if conjugate:
                # 'aij, jk, alk -> il'
                S += np.tensordot(pi @ block, pj, axes=((0, 2), (0, 2)))
            else:
                S += np.tensordot(pi @ block, pj.conj(), axes=((0, 2), (0, 2)))
''', '''            for a in range(len(pi)):
                S += pi[a] @ block @ (pj[a].T if conjugate else pj[a].T.conj())
''')], 'loop')
ref('C26', S, [('''    for (i, j) in it.product(ind, ind):
        # Only do j <= i if squares to 1
        if squares_to_1 and j>i:
            continue
''', '''    for (i, j) in ((a, b) for a in ind for b in (range(a + 1) if squares_to_1 else ind)):
''')], 'pairs')
ref('C26', LA, [('''        if conj:
            row = [flatten(mat @ hL - hR @ mat.conj()) for mat in basis()]
        else:
            row = [flatten(mat @ hL - hR @ mat) for mat in basis()]
        null_mat.append(row)
''', '''        row = []
        for mat in basis():
            rhs = hR @ (mat.conj() if conj else mat)
            row.append(-flatten(rhs - mat @ hL))
        null_mat.append(row)
''')], 'loop')

bug('C08', KC, [('output[sympy.Mul(*key)] += sympy.Mul(*val)', 'output[sympy.Mul(*key)] = sympy.Mul(*val)')], 'monomials overwritten')
bug('C08', KC, [('output[sympy.Mul(*key)] += sympy.Mul(*val)', 'output[sympy.Mul(*key[:1])] += sympy.Mul(*val)')], 'first generator only')
bug('C08', KC, [('output[sympy.Mul(*key)] += sympy.Mul(*val)', 'output[sympy.Mul(*key)] += sympy.Mul(*val[:2])')], 'factors dropped')
bug('C08', KC, [('key.append(factor)', 'key.append(symbol)')], 'powers dropped')
ref('C08', KC, [('output[sympy.Mul(*key)] += sympy.Mul(*val)', '''k, v = sympy.Mul(*key), sympy.Mul(*val)
        output[k] = output[k] + v if k in output else v'''), ('output = defaultdict(lambda: sympy.Integer(0))', 'output = {}')], 'dict')
ref('C08', KC, [('''            if symbol in gens:
                key.append(factor)
            else:
                val.append(factor)
''', '''            (key if symbol in gens else val).append(factor)
''')], 'conditional list')
bug('C07', M, [('        return self + (-other)\n', '        result = self + (-other)\n        for key in self.keep - self.keys():\n            if key in other.keys():\n                result[key] = other[key]\n        return result\n')], 'kept subtraction')

# --- C24
bug('C24', S, [("conserved_quantities(Ps, prettify=prettify, num_digits=num_digits)", "conserved_quantities(Ps, prettify=prettify)")], 'digits of conserved quantities dropped')
bug('C24', S, [("generators=generators, verbose=verbose,\n                                          sparse_linalg=sparse_linalg)", "generators=generators, verbose=verbose)")], 'sparse dropped')
bug('C24', S, [("generators=generators, verbose=verbose,", "generators=verbose, verbose=generators,")], 'swapped')
bug('C24', S, [("null_vecs = nullspace(constraints, sparse=sparse_linalg)", "null_vecs = nullspace(constraints, sparse=prettify)")], 'wrong flag')
bug('C24', S, [("null_vecs = sparse_basis(null_vecs, reals=False, num_digits=num_digits)", "null_vecs = sparse_basis(null_vecs, reals=False)")], 'digits dropped')
bug('C24', S, [("squares_to_1=squares_to_1, sparse=sparse)\n    S = ", "squares_to_1=squares_to_1)\n    S = ")], 'sparse of blocks dropped')
bug('C24', S, [("hermitian=False, traceless=False, sparse=sparse, k_max=2)", "hermitian=False, traceless=False, sparse=False, k_max=2)")], 'sparse of blocks fixed')
bug('C24', HG, [("        rfamily = make_basis_pretty(rfamily, num_digits=int(-np.log10(tol)))", "        rfamily = make_basis_pretty(rfamily)")], 'digits of prettified difference')
bug('C24', HG, [("    _, basis_vectors = nullspace(basis_vectors.T, atol=tol, return_complement=True)", "    _, basis_vectors = nullspace(basis_vectors.T, return_complement=True)")], 'tolerance of duplicates')
bug('C24', HG, [("        family = remove_duplicates(family2, tol=10**(-num_digits))", "        family = remove_duplicates(family2)")], 'tolerance in bloch_family')
bug('C24', HG, [("            sterm = term.tosympy(nsimplify=nsimplify)", "            sterm = term.tosympy(nsimplify=summed)")], 'nsimplify')
bug('C24', HG, [("                    applied = applied.around(num_digits)", "                    applied = applied.around(3)")], 'digits')
bug('C24', HG, [("    return round_family(rfamily, num_digits)", "    return round_family(rfamily)")], 'digits of prettified family')
bug('C24', HG, [("    _, S = rref(basis_vectors, return_S=True, rtol=10**(-num_digits))", "    _, S = rref(basis_vectors, return_S=True)")], 'tolerance of prettified family')
bug('C24', HG, [("    null_basis = nullspace(constraint_matrix, sparse=sparse_linalg)", "    null_basis = nullspace(constraint_matrix)")], 'sparse in constrain_family')
bug('C24', LA, [("    ns = nullspace(null_mat, sparse=sparse, k_max=k_max)", "    ns = nullspace(null_mat, sparse=sparse)")], 'k_max')
bug('C24', M, [("return all(allclose(val, 0, rtol, atol, equal_nan)", "return all(allclose(val, 0, atol, rtol, equal_nan)")], 'swapped tolerances')
bug('C24', M, [("            return all(allclose(self[key], other[key], rtol, atol, equal_nan)", "            return all(allclose(self[key], other[key], atol=atol, equal_nan=equal_nan)")], 'rtol dropped')
bug('C24', M, [("        return self.tomodel(nsimplify=nsimplify).tosympy(nsimplify)", "        return self.tomodel().tosympy(nsimplify)")], 'nsimplify of exponents')
bug('C24', M, [("expr = self.tosympy(nsimplify=nsimplify).subs", "expr = self.tosympy().subs")], 'nsimplify of lambdify')
bug('C24', M, [("kwant_continuum.sympify(hamiltonian, locals=locals)", "kwant_continuum.sympify(hamiltonian)")], 'locals')
bug('C24', M, [("            self.__init__(Model(hamiltonian,\n                                locals=locals,", "            self.__init__(Model(hamiltonian,")], 'locals of Bloch models')
bug('C24', KC, [("    expr = sympify(expr, locals)\n\n    args", "    expr = sympify(expr)\n\n    args")], 'locals of lambdify')
bug('C24', M, [("                                          and (symbol_normalizer(k) in self.keep\n                                               or not self.keep))", "                                          )")], 'keep ignored for text')
bug('C24', S, [("        gr = _find_unitary(model, Ps, g, sparse=sparse_linalg)", "        gr = _find_unitary(model, Ps, g)")], 'sparse of the search')
ref('C24', HG, [("10**(-num_digits)", "10.0**(-num_digits)")], 'float power')
ref('C24', S, [("    cont_sym = conserved_quantities(Ps, prettify=prettify, num_digits=num_digits)", "    opts = dict(prettify=prettify, num_digits=num_digits)\n    cont_sym = conserved_quantities(Ps, **opts)")], 'options in a dict')
ref('C24', S, [("conserved_quantities(Ps, prettify=prettify, num_digits=num_digits)", "conserved_quantities(Ps, prettify, num_digits)")], 'positional')
ref('C24', HG, [("        rfamily = make_basis_pretty(rfamily, num_digits=int(-np.log10(tol)))", "        digits = int(-np.log10(tol))\n        rfamily = make_basis_pretty(rfamily, digits)")], 'local')
ref('C24', M, [("            return all(allclose(self[key], other[key], rtol, atol, equal_nan)\n                       for key in self.keys() | other.keys())", "            for key in self.keys() | other.keys():\n                if not allclose(self[key], other[key], atol=atol, rtol=rtol, equal_nan=equal_nan):\n                    return False\n            return True")], 'loop')
ref('C24', LA, [("    ns = nullspace(null_mat, sparse=sparse, k_max=k_max)", "    options = {'sparse': sparse, 'k_max': k_max}\n    ns = nullspace(null_mat, **options)")], 'dict')
ref('C24', HG, [("                if num_digits is not None:\n                    applied = applied.around(num_digits)", "                applied = applied if num_digits is None else applied.around(decimals=num_digits)")], 'conditional expression')

# --- C30
bug('C30', KC, [("        locals.setdefault(k, v)", "        locals[k] = v")], 'predefined names win')
bug('C30', KC, [("        locals.setdefault(k, v)", "        if k not in ('x', 'y', 'z'):\n            locals.setdefault(k, v)")], 'positions not predefined')
bug('C30', KC, [("    locals = {k: (sympy.Matrix(v) if isinstance(v, np.ndarray) else sympify(v))\n              for k, v in locals.items()}", "    locals = {k: (sympy.Matrix(v) if isinstance(v, np.ndarray) else sympify(v))\n              for k, v in locals.items() if k not in extra_ns or not k.startswith('sigma')}")], 'sigma names kept')
bug('C30', KC, [("else sympify(v))", "else v)")], 'values not parsed')
bug('C30', KC, [("    locals = {k: (sympy.Matrix(v) if isinstance(v, np.ndarray) else sympify(v))\n              for k, v in locals.items()}", "    for k, v in list(locals.items()):\n        locals[k] = sympy.Matrix(v) if isinstance(v, np.ndarray) else sympify(v)")], 'table of the caller extended')
bug('C30', KC, [("    return sympy.lambdify(sorted(args), expr)", "    return sympy.lambdify(args, expr)")], 'unsorted')
bug('C30', KC, [("    args = [s.name for s in expr.atoms(sympy.Symbol)]\n    args += [str(f.func)", "    args = sorted(s.name for s in expr.atoms(sympy.Symbol))\n    args += [str(f.func)"), ("sympy.lambdify(sorted(args), expr)", "sympy.lambdify(args, expr)")], 'functions last')
bug('C30', KC, [("sympy.lambdify(sorted(args), expr)", "sympy.lambdify(sorted(args, key=str.lower), expr)")], 'case ignored')
bug('C30', KC, [("    symbols = [sympy.Symbol(s.name, commutative=False) for s in symbols]", "    symbols = [s for s in symbols]")], 'only noncommuting given')
bug('C30', KC, [("    symbols = [sympy.Symbol(s.name, commutative=False) for s in symbols]", "    symbols = [sympy.Symbol(s.name, commutative=False) for s in symbols[:3]]")], 'first three')
bug('C30', KC, [("    expr = expr.subs({s: sympy.Symbol(s.name) for s in symbols})", "    expr = expr.subs({s: sympy.Symbol(s.name, commutative=False) for s in symbols})")], 'still noncommuting')
bug('C30', M, [("        args = sorted([s.name for s in expr.atoms(sympy.Symbol)])", "        args = [s.name for s in expr.atoms(sympy.Symbol)]")], 'unsorted')
bug('C30', M, [("            args = ['site1', 'site2'] + args", "            args = ['site2', 'site1'] + args")], 'sites exchanged')
bug('C30', M, [("            args = ['site'] + args", "            args = sorted(['site'] + args)")], 'site sorted')
bug('C30', M, [("            gens = free_parameters + list(self.momenta)\n", "            gens = list(self.momenta)\n")], 'parameters do not commute')
bug('C30', M, [("            gens = free_parameters + list(self.momenta)\n", "            gens = free_parameters\n")], 'momenta do not commute')
ref('C30', KC, [("    for k, v in extra_ns.items():\n        locals.setdefault(k, v)", "    locals = {**extra_ns, **locals}")], 'merge')
ref('C30', KC, [("    for k, v in extra_ns.items():\n        locals.setdefault(k, v)", "    namespace = dict(extra_ns)\n    namespace.update(locals)\n    locals = namespace")], 'update')
ref('C30', KC, [("    for k, v in extra_ns.items():\n        locals.setdefault(k, v)", "    for k, v in extra_ns.items():\n        if k not in locals:\n            locals[k] = v")], 'explicit test')
ref('C30', KC, [("    args = [s.name for s in expr.atoms(sympy.Symbol)]\n    args += [str(f.func) for f in expr.atoms(AppliedUndef, sympy.Function)]\n\n    return sympy.lambdify(sorted(args), expr)", "    names = {s.name for s in expr.atoms(sympy.Symbol)}\n    names |= {str(f.func) for f in expr.atoms(AppliedUndef, sympy.Function)}\n\n    return sympy.lambdify(sorted(names), expr)")], 'set')
ref('C30', KC, [("    symbols = [sympy.Symbol(s.name, commutative=False) for s in symbols]\n    expr = expr.subs({s: sympy.Symbol(s.name) for s in symbols})", "    names = [s.name for s in symbols]\n    for name in names:\n        expr = expr.subs(sympy.Symbol(name, commutative=False), sympy.Symbol(name))")], 'loop')
ref('C30', M, [("        if onsite and not hopping:\n            args = ['site'] + args\n        elif hopping and not onsite:\n            args = ['site1', 'site2'] + args\n        elif hopping and onsite:\n            raise ValueError(\"'hopping' and 'onsite' are mutually exclusive\")", "        if hopping and onsite:\n            raise ValueError(\"'hopping' and 'onsite' are mutually exclusive\")\n        if onsite:\n            args.insert(0, 'site')\n        if hopping:\n            args = ['site1', 'site2', *args]")], 'other order')

# C21
bug('C21', G, [("        if g.conjugate and not g.antisymmetry:\n            az_name = r\" \\mathcal{T}\"", "        if g.conjugate:\n            az_name = r\" \\mathcal{T}\"")], 'P becomes T')
bug('C21', G, [('az_name = r" \\mathcal{P}" if latex else "P"', 'az_name = r" \\mathcal{C}" if latex else "P"')], 'latex P')
bug('C21', G, [('elif not g.conjugate and g.antisymmetry:', 'elif not g.conjugate:')], 'unitary labelled C')
bug('C21', G, [("""            name = name.format("^*" if g.conjugate else "", "-" if g.antisymmetry else "",
                               "-" if g.conjugate else "")""", """            name = name.format("^*" if g.conjugate else "", "-" if g.conjugate else "",
                               "-" if g.antisymmetry else "")""")], 'latex signs exchanged')
bug('C21', G, [("""name.format("^*" if g.conjugate else "", "-" if g.antisymmetry else "",
                               "-" if g.conjugate else "")""", """name.format("^*" if g.conjugate else "", "-" if g.antisymmetry else "",
                               "-" if g.conjugate and not g.antisymmetry else "")""")], 'no -R for P')
bug('C21', G, [("        if g.U is not None:\n            if latex:\n                Umat", "        if True:\n            if latex:\n                Umat")], 'U None')
bug('C21', G, [("            n, theta = rotation_to_angle(-R)", "            n, theta = rotation_to_angle(R)")], 'improper angle of R')
bug('C21', G, [("        absn = la.norm(n) * (-1 if np.sum(n) < 0 else 1)", "        absn = la.norm(n) * np.sign(np.sum(n))") if False else ("    absn = la.norm(n) * (-1 if np.sum(n) < 0 else 1)", "    absn = la.norm(n) * np.sign(np.sum(n))")], 'sign zero')
bug('C21', G, [("        n *= (-1 if np.sum(n) < 0 else 1)", "        n *= np.sign(np.sum(n))")], 'sign zero of half turns')
bug('C21', G, [("    theta = np.arctan2(absn, np.trace(R).real - 1)", "    theta = np.arctan2(abs(absn), np.trace(R).real - 1)")], 'angle loses its sign')
bug('C21', G, [("    theta = np.arctan2(absn, np.trace(R).real - 1)", "    theta = np.arctan2(absn, np.trace(R).real)")], 'trace')
bug('C21', G, [("        n = vec[:, -1]\n", "        n = vec[:, 0]\n")], 'wrong eigenvector')
bug('C21', G, [("            n = vec[:, 0]\n            if latex", "            n = vec[:, 1]\n            if latex")], 'mirror line instead of normal')
bug('C21', G, [("            theta = np.arctan2(R[1, 0], R[0, 0])", "            theta = np.arctan2(R[0, 1], R[0, 0])")], 'plane angle sign')
bug('C21', G, [("            theta = np.arctan2(R[1, 0], R[0, 0])", "            theta = np.arccos(R[0, 0])"), ], 'arccos')
bug('C21', G, [("            if np.isclose(theta, 0):\n                rot_name = '1'\n            else:\n                if latex:\n                    rot_name = r'R\\left({}\\right)'", "            if np.isclose(np.sin(theta), 0):\n                rot_name = '1'\n            else:\n                if latex:\n                    rot_name = r'R\\left({}\\right)'")], 'half turn trivial')
bug('C21', G, [("            elif np.isclose(theta, np.pi):\n", "            elif np.isclose(abs(theta), np.pi / 2):\n")], 'mirror test')
bug('C21', G, [("                angle = r'{}\\frac{{{}\\pi}}{{{}}}'.format(\n                            \"-\" if num < 0 else \"\",\n                            \"\" if abs(num) == 1 else abs(num),", "                angle = r'{}\\frac{{{}\\pi}}{{{}}}'.format(\n                            \"-\" if num < 0 else \"\",\n                            \"\" if num == 1 else num,")], 'double minus')
bug('C21', G, [("                                     \"\" if den == 1 else (\"/\" + str(den)))", "                                     \"\" if abs(num) == 1 else (\"/\" + str(den)))")], 'denominator')
bug('C21', G, [("        n /= la.norm(n)\n        if latex:", "        n /= la.norm(n)\n        n = _round_axis(n)\n        if latex:")], 'rounded twice')
bug('C21', G, [("    if L is not None and allclose(L, np.zeros(L.shape)):\n        L = None\n", "    if allclose(L, np.zeros(L.shape)):\n        L = None\n")], 'L None')
bug('C21', G, [("            name = name.format(r'e^{-i\\phi L}' if L is not None else '',\n                               r'e^{i\\phi L}' if L is not None else '')", "            name = name.format(r'e^{i\\phi L}' if L is not None else '',\n                               r'e^{i\\phi L}' if L is not None else '')")], 'sign of exponent')
bug('C21', G, [("            L_name = '\\nL = {}'.format(str(np.round(L, 3)).replace('\\n', '\\n    '))", "            L_name = '\\nL = {}'.format(str(np.round(R, 3)).replace('\\n', '\\n    '))")], 'prints R as L')
bug('C21', G, [("        if np.isclose(vec @ n, la.norm(vec)) and not np.isclose(la.norm(vec), 0):", "        if np.isclose(vec @ n, la.norm(vec)):")], 'zero axis')
bug('C21', G, [("        if np.isclose(vec @ n, la.norm(vec)) and not np.isclose(la.norm(vec), 0):", "        if np.isclose(abs(vec @ n), la.norm(vec)) and not np.isclose(la.norm(vec), 0):")], 'axis sign')
bug('C21', G, [("    return np.round(n, 2)\n", "    return np.round(n, 0)\n")], 'coarse')
bug('C21', G, [("        n = np.array([np.trace(l @ R) for l in L_matrices()]).real  # Noqa: E741\n", "        n = np.array([np.trace(R.T @ l.T) for l in L_matrices()]).real  # Noqa: E741\n        n = n * (-1 if np.sum(n) < 0 else 1)\n")], 'generator axis flipped')
ref('C21', G, [("        n = np.array([np.trace(l @ R) for l in L_matrices()]).real  # Noqa: E741\n", "        n = np.array([np.sum(l.T * R) for l in L_matrices()]).real  # Noqa: E741\n")], 'elementwise')
ref('C21', G, [("        if g.conjugate and not g.antisymmetry:\n            az_name = r\" \\mathcal{T}\" if latex else \"T\"\n        elif g.conjugate and g.antisymmetry:\n            az_name = r\" \\mathcal{P}\" if latex else \"P\"\n        elif not g.conjugate and g.antisymmetry:\n            az_name = r\" \\mathcal{C}\" if latex else \"C\"\n        else:\n            az_name = \"\"", "        letter = {(True, False): 'T', (True, True): 'P', (False, True): 'C'}.get((g.conjugate, g.antisymmetry), '')\n        az_name = r\" \\mathcal{%s}\" % letter if letter and latex else letter")], 'label table')
ref('C21', G, [("    R = np.array(g.R).astype(float)\n    if R.shape[0] == 1:", "    R = np.array(g.R).astype(float)\n    dim = R.shape[0]\n    if dim == 1:")], 'dim')
ref('C21', G, [("    absn = la.norm(n) * (-1 if np.sum(n) < 0 else 1)", "    absn = la.norm(n)\n    if n.sum() < 0:\n        absn = -absn")], 'if')
ref('C21', G, [("        if np.isclose(la.det(R), 1):\n            # pure rotation\n            theta", "        if la.det(R) > 0:\n            # pure rotation\n            theta"), ("        if np.isclose(la.det(R), 1):\n            # pure rotation\n            n, theta", "        if la.det(R) > 0:\n            # pure rotation\n            n, theta")], 'det positive')
ref('C21', G, [("            name = '\\nU⋅H(k){}⋅U^-1 = {}H({}R⋅k)\\n'.format(\"*\" if g.conjugate else \"\",\n                                                         \"-\" if g.antisymmetry else \"\",\n                                                         \"-\" if g.conjugate else \"\")", "            star, minus = ('*', '-') if g.conjugate else ('', '')\n            sign = '-' if g.antisymmetry else ''\n            name = f'\\nU⋅H(k){star}⋅U^-1 = {sign}H({minus}R⋅k)\\n'")], 'f string')
ref('C21', G, [("                    rot_name = ('S({}, {})'\n                                .format(name_angle(theta, latex), _round_axis(n)))", "                    rot_name = f'S({name_angle(theta)}, {_round_axis(n)})'")], 'f string S')

# C31
bug('C31', L3, [("            vecs[i] -= np.round(u[i, j]) * vecs[j]", "            vecs[i] -= u[i, j] * vecs[j]")], 'not rounded')
bug('C31', L3, [("            vecs[i] -= np.round(u[i, j]) * vecs[j]", "            vecs[i] -= 0.5 * np.round(2 * u[i, j]) * vecs[j]")], 'half integers')
bug('C31', L3, [("            vecs[[i, i+1]] = vecs[[i+1, i]]", "            vecs[[i, i+1]] = vecs[[i+1, i+1]]")], 'copied row')
bug('C31', L3, [("            vecs[[i, i+1]] = vecs[[i+1, i]]", "            vecs[i], vecs[i+1] = vecs[i+1], vecs[i]")], 'swap of views')
bug('C31', L3, [("        for j in reversed(range(i)):\n            vecs[i]", "        for j in reversed(range(i + 1)):\n            vecs[i]")], 'subtracts itself')
bug('C31', L3, [("            u[i] -= np.round(u[i, j]) * u[j]", "            u[i, :j] -= np.round(u[i, j]) * u[j, :j]")], 'coefficients not reduced')
bug('C31', L3, [("            u[[i, i+1]] = u[[i+1, i]]", "            u[[i + 1, i]] = u[[i + 1, i]]")], 'coefficients not exchanged')
bug('C31', L3, [("            vecsstar[i+1] += u[i+1, i] * vecsstar[i]", "            vecsstar[i+1] += u[i, i] * vecsstar[i]")], 'wrong coefficient')
bug('C31', L3, [("            u[i+1, i+1] = 0\n", "")], 'diagonal')
bug('C31', L3, [("    return vecs, np.array(np.round(coefs), int)", "    return vecsstar, np.array(np.round(coefs), int)")], 'orthogonalised')
bug('C31', L3, [("    vecs = vecs_orig.copy()\n    vecsstar = vecs_orig.copy()", "    vecs = vecs_orig.copy()\n    vecsstar = vecs")], 'aliased')
bug('C31', L3, [("    vertices = np.concatenate([vertices, -vertices])", "    vertices = np.concatenate([vertices, -vertices[::-1]])")], 'reversed')
bug('C31', L3, [("    vertices = np.concatenate([vertices, -vertices])", "    vertices = np.concatenate([[v, -v] for v in vertices])")], 'interleaved')
bug('C31', L3, [("        vertices = vertices[keep]\n\n    vertices = np.concatenate([vertices, -vertices])", "        vertices = np.concatenate([vertices[keep], -vertices[keep[::-1]]])\n    else:\n        vertices = np.concatenate([vertices, -vertices])")], 'other mask')
bug('C31', L3, [("(len(basis) * [[0, .5]])", "(len(basis) * [[.5, 0]])"), (")))[1:]", ")))[:-1]")], 'order') if False else None
bug('C31', L3, [("list(product(*(len(basis) * [[0, .5]])))[1:]", "list(product(*(basis.shape[1] * [[0, .5]])))[1:]")], 'dimension of space')
bug('C31', L3, [("(vertices - displacements) * 2)", "(vertices - displacements) * -2)"), ("    vertices = np.concatenate([vertices, -vertices])", "    vertices = np.concatenate([vertices, abs(vertices)])")], 'abs')
bug('C31', L3, [("(vertices - displacements) * 2)", "(vertices + displacements) * 2)")], 'sign of displacement')
ref('C31', L3, [("            vecs[[i, i+1]] = vecs[[i+1, i]]", "            vecs[i], vecs[i+1] = vecs[i+1].copy(), vecs[i].copy()")], 'swap of copies')
ref('C31', L3, [("            vecs[i] -= np.round(u[i, j]) * vecs[j]\n            u[i] -= np.round(u[i, j]) * u[j]", "            r = np.round(u[i, j])\n            vecs[i] -= r * vecs[j]\n            u[i] -= r * u[j]")], 'helper name')
ref('C31', L3, [("            vecs[i] -= np.round(u[i, j]) * vecs[j]\n            u[i] -= np.round(u[i, j]) * u[j]", "            r = int(np.round(u[i, j]))\n            if r:\n                vecs[i] = vecs[i] - r * vecs[j]\n                u[i] = u[i] - r * u[j]")], 'if nonzero')
ref('C31', L3, [("        for j in reversed(range(i)):\n            vecs[i]", "        for j in range(i - 1, -1, -1):\n            vecs[i]")], 'range')
ref('C31', L3, [("    vertices = np.concatenate([vertices, -vertices])", "    vertices = np.vstack((vertices, -1 * vertices))")], 'vstack')
ref('C31', L3, [("    displacements = list(product(*(len(basis) * [[0, .5]])))[1:]", "    displacements = np.array(list(product([0, .5], repeat=len(basis)))[1:])")], 'repeat')
ref('C31', L3, [("    i = 0\n    while i < m-1:", "    i = 0\n    while True:\n        if i >= m - 1:\n            break")], 'while True')

# C23
bug('C23', LA, [("    if 0 in a.shape:\n", "    if a.size == 0:\n")], 'stored entries as size')
bug('C23', LA, [("        a = a.tocsr()\n", "        pass\n")], 'other formats not converted')
bug('C23', LA, [("        b = b @ np.eye(b.shape[-1], dtype=complex)", "        b = b @ np.eye(a.shape[-1], dtype=complex)")], 'extent of the other')
bug('C23', LA, [("max(np.max(np.abs(a)), np.max(np.abs(b)))", "np.max(np.abs(a))")], 'one scale')
bug('C23', LA, [("max(np.max(np.abs(a)), np.max(np.abs(b)))", "np.max(np.abs(a.data if isinstance(a, scipy.sparse.spmatrix) else a))")], 'one scale of data')
bug('C23', LA, [("    elif isinstance(b, sla.LinearOperator):\n        b = b @ np.eye(b.shape[-1], dtype=complex)\n", "")], 'operator not converted')
bug('C23', LA, [("        diff = diff.data\n", "        diff = diff.data[:1]\n")], 'first difference')
bug('C23', LA, [("    atol = atol + rtol * max(", "    atol = max(atol, rtol * max("), ("np.max(np.abs(b)))\n    diff", "np.max(np.abs(b))))\n    diff")], 'larger tolerance')
bug('C23', LA, [("            k_max = min(A.shape[0] - 1, k_step)\n", "            k_max = min(A.shape[0] - 2, k_step)\n"), ("k_max = min(k_max + k_step, A.shape[0] - 1)", "k_max = min(k_max + k_step, A.shape[0] - 2)"), ("elif k_max == A.shape[0] - 1:", "elif k_max == A.shape[0] - 2:")], 'gives up early')
bug('C23', LA, [("        A = A.T.conj().dot(A)\n", "        A = A.T.dot(A)\n")], 'no conjugate')
bug('C23', LA, [("        sigma = -1e-1\n", "        sigma = 1e1\n")], 'shift')
bug('C23', LA, [("                if np.max(np.abs(evals)) > atol:\n", "                if np.min(np.abs(evals)) > atol or k_max >= 2 * k_step:\n")], 'two steps only')
bug('C23', LA, [("                    k_max = min(k_max + k_step, A.shape[0] - 1)", "                    k_max = min(2 * k_max + 1, A.shape[0])")], 'too many')
bug('C23', LA, [("        return ns.T\n", "        return ns.T.conj()\n")], 'conjugate vectors')
bug('C23', LA, [("        if isinstance(A, scipy.sparse.spmatrix):\n            A = A.toarray()\n", "")], 'svd of sparse')
bug('C23', LA, [("        if isinstance(A, scipy.sparse.spmatrix):\n            A = A.toarray()\n", "        if isinstance(A, scipy.sparse.csr_matrix):\n            A = A.toarray()\n")], 'svd of other sparse')
bug('C23', LA, [("            nnz = np.concatenate((nnz, [True for _ in range(len(vh) - len(s))]))", "            vh = vh[:len(s)]")], 'wide matrices')
bug('C23', LA, [("        ns = vh[nnz].conj()\n", "        ns = vh[nnz]\n")], 'svd not conjugated')
bug('C23', LA, [("            return np.eye(A.shape[1])\n", "            return np.eye(A.shape[0])\n")], 'zero matrix')
bug('C23', M, [("            if isinstance(mat, scipy.sparse.spmatrix):\n                mat = mat.tocsr().data\n", "")], 'matrix power')
bug('C23', M, [("            return np.sqrt(np.sum(np.abs(mat)**2))", "            return np.sqrt(np.sum(np.abs(mat)**2, axis=None)) if isinstance(mat, np.ndarray) and mat.ndim == 2 else np.max(np.abs(mat))")], 'another norm for data')
bug('C23', M, [("                mat = mat.tocsr().data\n", "                mat = mat.data\n")], 'data of any format')
bug('C23', M, [("            return scipy.sparse.linalg.aslinearoperator(\n                scipy.sparse.csr_matrix(self.shape, dtype=complex))", "            return np.zeros(self.shape, dtype=complex)")], 'dense zero operator')
bug('C23', M, [("            if isinstance(val, (Number, np.ndarray, scipy.sparse.spmatrix)):\n                result[key] = scipy", "            if isinstance(val, (Number, np.ndarray, scipy.sparse.csr_matrix)):\n                result[key] = scipy")], 'tocsr of other formats') if False else None
bug('C23', M, [("                val = round(val.tocsr(), decimals)\n", "                val = round(val.tocsr())\n")], 'digits of sparse')
bug('C23', M, [("            val = type(val)(total) if isinstance(val, scipy.sparse.spmatrix) else total\n", "            val = total\n")], 'format of collected terms')
bug('C23', M, [("            self.data[key] = self.format(item)\n", "            self.data[key] = item\n")], 'kept item format') if False else None
bug('C23', LA, [("            return scipy.sparse.coo_matrix(x).reshape((x.shape[0]*x.shape[1], 1))", "            return scipy.sparse.coo_matrix(x.T).reshape((x.shape[0]*x.shape[1], 1)) if x.nnz else x.T")], 'flatten') if False else None
ref('C23', LA, [("    diff = a - b\n    if isinstance(diff, scipy.sparse.spmatrix):\n        diff = diff.data\n", "    diff = b - a\n    diff = diff.data if isinstance(diff, scipy.sparse.spmatrix) else diff\n")], 'other sign')
ref('C23', LA, [("    atol = atol + rtol * max(np.max(np.abs(a)), np.max(np.abs(b)))", "    scale = max(abs(x).max() for x in (a, b))\n    atol = atol + rtol * scale")], 'max method')
ref('C23', LA, [("    if isinstance(a, (list, Number)):\n        a = np.asarray(a)\n    elif isinstance(a, sla.LinearOperator):\n        a = a @ np.eye(a.shape[-1], dtype=complex)\n    elif isinstance(a, scipy.sparse.spmatrix):\n        # Not all sparse formats support the operations used below\n        a = a.tocsr()\n", "    a = _comparable(a)\n"), ("    if isinstance(b, (list, Number)):\n        b = np.asarray(b)\n    elif isinstance(b, sla.LinearOperator):\n        b = b @ np.eye(b.shape[-1], dtype=complex)\n    elif isinstance(b, scipy.sparse.spmatrix):\n        b = b.tocsr()\n", "    b = _comparable(b)\n"), ("def allclose(a, b,", "def _comparable(x):\n    if isinstance(x, sla.LinearOperator):\n        return x @ np.eye(x.shape[-1], dtype=complex)\n    if isinstance(x, scipy.sparse.spmatrix):\n        return x.tocsr()\n    return np.asarray(x) if isinstance(x, (list, Number)) else x\n\n\ndef allclose(a, b,")], 'helper')
ref('C23', LA, [("        A = A.T.conj().dot(A)\n", "        A = A.conj().T @ A\n")], 'matmul')
ref('C23', LA, [("            while True:\n                evals", "            evals = None\n            while evals is None or np.max(np.abs(evals)) <= atol:\n                if evals is not None and k_max == A.shape[0] - 1:\n                    raise ValueError('A should have at most A.shape[0]-2 dimensional null space.')\n                if evals is not None:\n                    k_max = min(k_max + k_step, A.shape[0] - 1)\n                evals"), ("""                if np.max(np.abs(evals)) > atol:
                    # We found the first large one
                    break
                elif k_max == A.shape[0] - 1:
                    raise ValueError('A should have at most A.shape[0]-2 dimensional null space.'
                                     'Try using sparse=False.')
                else:
                    # All small, need to increase k_max
                    k_max = min(k_max + k_step, A.shape[0] - 1)
""", "")], 'loop condition')
ref('C23', LA, [("            nnz = np.concatenate((nnz, [True for _ in range(len(vh) - len(s))]))", "            nnz = np.append(nnz, np.ones(len(vh) - len(s), dtype=bool))")], 'append')
ref('C23', LA, [("        nsc = vh[np.invert(nnz)].conj()", "        nsc = vh[~nnz].conj()")], 'tilde')
ref('C23', LA, [("        ns = vh[nnz].conj()\n        nsc = vh[np.invert(nnz)].conj()\n        if return_complement:\n            return ns, nsc\n        else:\n            return ns", "        vh = vh.conj()\n        return (vh[nnz], vh[np.logical_not(nnz)]) if return_complement else vh[nnz]")], 'one conjugate')
ref('C23', M, [("            return np.sqrt(np.sum(np.abs(mat)**2))", "            return np.sqrt((np.abs(mat)**2).sum())")], 'sum method')
ref('C23', M, [("            if isinstance(mat, scipy.sparse.spmatrix):\n                mat = mat.tocsr().data\n", "            if isinstance(mat, scipy.sparse.spmatrix):\n                mat = mat.toarray()\n")], 'dense norm')
ref('C23', M, [("            if isinstance(val, scipy.sparse.spmatrix):\n                # np.around doesn't support sparse matrices\n                val = round(val.tocsr(), decimals)\n            else:\n                val = np.around(val, decimals)\n", "            if isinstance(val, scipy.sparse.spmatrix):\n                val = scipy.sparse.csr_matrix(np.around(val.toarray(), decimals))\n            else:\n                val = np.around(val, decimals)\n")], 'dense rounding')
# --- C32
ALLC = "for key in self.keys() | other.keys())"
bug('C32', M, [(ALLC, 'for key in self.keys())')], 'own keys only')
bug('C32', M, [(ALLC, 'for key in other.keys())')], 'keys of other only')
bug('C32', M, [(ALLC, 'for key in self.keys() & other.keys())')], 'shared keys only')
bug('C32', M, [(ALLC, 'for key in self.keys() ^ other.keys())')], 'unshared keys only')
bug('C32', M, [('return all(allclose(val, 0, rtol, atol, equal_nan) for val in self.values())', 'return any(allclose(val, 0, rtol, atol, equal_nan) for val in self.values())')], 'any zero')
bug('C32', M, [('return all(allclose(val, 0, rtol, atol, equal_nan) for val in self.values())', 'return False')], 'zero terms are not zero')
bug('C32', M, [('''            if self.data == {}:
                return True
            else:
                return all(allclose(val, 0, rtol, atol, equal_nan) for val in self.values())''', '''            return self.data == {}''')], 'empty only if no terms')
bug('C32', M, [('''        # Call allclose with default tolerances
        return self.allclose(other)''', '''        # Call allclose with default tolerances
        return isinstance(other, Model) and len(self) == len(other) and self.allclose(other)''')], 'eq by length')
bug('C32', M, [('''        # Call allclose with default tolerances
        return self.allclose(other)''', '''        # Call allclose with default tolerances
        if self.data == {}:
            return True
        return self.allclose(other)''')], 'empty equals all')
ref('C32 C07', M, [('''            return all(allclose(self[key], other[key], rtol, atol, equal_nan)
                       for key in self.keys() | other.keys())''', '''            for key in set(self) | set(other):
                if not allclose(self[key], other[key], rtol, atol, equal_nan):
                    return False
            return True''')], 'loop')
ref('C32 C07', M, [('''            return all(allclose(self[key], other[key], rtol, atol, equal_nan)
                       for key in self.keys() | other.keys())''', '''            if not all(allclose(val, other[key], rtol, atol, equal_nan) for key, val in self.items()):
                return False
            return all(allclose(val, 0, rtol, atol, equal_nan) for key, val in other.items() if key not in self)''')], 'two passes')
ref('C32 C07', M, [('''            if self.data == {}:
                return True
            else:
                return all(allclose(val, 0, rtol, atol, equal_nan) for val in self.values())''', '''            return not any(not allclose(val, 0, rtol, atol, equal_nan) for val in self.values())''')], 'not any')
# --- C33
bug('C33', LA, [('''        vector = [matrix_to_vector(mat) for mat in member.value_list(all_keys)]''', '''        vector = [matrix_to_vector(mat) for mat in member.value_list(list(member.keys()) + [k for k in all_keys if k not in member.keys()])]''')], 'own keys first')
bug('C33', LA, [('''        M = M.reshape(-1)
        return np.concatenate((M.real, M.imag))''', '''        M = M.reshape(-1)
        return M.real if len(family) > 1 and len(all_keys) == 1 else np.concatenate((M.real, M.imag))''')], 'imaginary part dropped')
bug('C33', LA, [('''            all_keys |= term.keys()
        all_keys = list(all_keys)''', '''            all_keys = all_keys & term.keys() if all_keys else set(term.keys())
        all_keys = list(all_keys)'''), ('    assert all([set(all_keys) >= term.keys() for term in family])\n', '')], 'shared keys')
bug('C33', LA, [('''        for term in family:
            all_keys |= term.keys()''', '''        for term in family[:2]:
            all_keys |= term.keys()'''), ('    assert all([set(all_keys) >= term.keys() for term in family])\n', '')], 'keys of two')
bug('C33', HG, [('ham = sum(term * c for c, term in zip(coeffs, family))', 'ham = sum(term * c for c, term in zip(sorted(coeffs, key=str), family))')], 'sorted coefficients')
bug('C33', HG, [('ham = sum(term * c for c, term in zip(coeffs, family))', 'ham = sum(term * c for c, term in zip(coeffs, family[::-1]))')], 'reversed')
bug('C33', HG, [('ham = sum(term * c for c, term in zip(coeffs, family))', 'ham = sum(term * c for c, term in zip(coeffs[1:], family[1:]))')], 'first lost')
bug('C33', HG, [("    _, S = rref(basis_vectors, return_S=True, rtol=10**(-num_digits))", "    _, S = rref(basis_vectors, return_S=True, rtol=10**(-num_digits))\n    S = S.T")], 'transposed S')
bug('C33', HG, [("    _, S = rref(basis_vectors, return_S=True, rtol=10**(-num_digits))", "    S, _ = rref(basis_vectors, return_S=True, rtol=10**(-num_digits))")], 'reduced matrix as coefficients')
bug('C33', HG, [("    return round_family(rfamily, num_digits)", "    return round_family(rfamily)")], 'default digits')
bug('C33', HG, [("    return [member.around(num_digits) for member in family]", "    return [member.around(num_digits) for member in family if len(member) > 1]")], 'members lost')
bug('C33', HG, [("    _, basis_vectors = nullspace(basis_vectors.T, atol=tol, return_complement=True)", "    basis_vectors, _ = nullspace(basis_vectors.T, atol=tol, return_complement=True)")], 'null space instead of complement')
bug('C33', HG, [("    _, basis_vectors = nullspace(basis_vectors.T, atol=tol, return_complement=True)", "    _, basis_vectors = nullspace(basis_vectors, atol=tol, return_complement=True)")], 'not transposed')
bug('C33', HG, [("        rfamily.append(sum([family[i] * c for i, c in enumerate(vec)]))", "        rfamily.append(sum([family[i] * c for i, c in enumerate(vec[:2])]))")], 'two members')
bug('C33', HG, [("projected_basis1 = basis1 - (basis1.dot(basis2.T.conj())).dot(basis2)", "projected_basis1 = basis1 - (basis1.dot(basis2.T.conj())).dot(basis2) / 2")], 'half projection')
bug('C33', HG, [("    basis2 = family_to_vectors(family2, all_keys=all_keys)", "    basis2 = family_to_vectors(family2, all_keys=all_keys[::-1])")], 'other order')
bug('C33', HG, [("        rfamily.append(sum([family1[i] * c for i, c in enumerate(vec)]))", "        rfamily.append(sum([family1[-i] * c for i, c in enumerate(vec)]))")], 'members reordered')
bug('C33', HG, [("    _, basis2 = nullspace(basis2, atol=tol, return_complement=True)", "    basis2, _ = nullspace(basis2, atol=tol, return_complement=True)")], 'projected onto the family')
ref('C33 C16 C17 C29', HG, [("    rfamily = []\n    for vec in basis_vectors:\n        rfamily.append(sum([family[i] * c for i, c in enumerate(vec)]))\n    return rfamily", "    return [sum(member * c for member, c in zip(family, vec)) for vec in basis_vectors]")], 'comprehension')
ref('C33 C16', HG, [("    all_keys = set.union(*[set(term.keys()) for term in family1])\n    all_keys |= set.union(*[set(term.keys()) for term in family2])\n    all_keys = list(all_keys)", "    all_keys = set()\n    for term in list(family1) + list(family2):\n        all_keys.update(term.keys())\n    all_keys = list(all_keys)")], 'update')
ref('C33', HG, [("    projected_basis1 = basis1 - (basis1.dot(basis2.T.conj())).dot(basis2)", "    overlap = basis1 @ basis2.conj().T\n    projected_basis1 = basis1 - overlap @ basis2")], 'overlap')
ref('C33', LA, [('''    basis_vectors = []
    for member in family:
        vector = [matrix_to_vector(mat) for mat in member.value_list(all_keys)]
        basis_vectors.append(np.hstack(vector))
    return np.vstack(basis_vectors)''', '''    return np.array([np.concatenate([matrix_to_vector(member[key]) for key in all_keys])
                     for member in family])''')], 'array of rows')
ref('C33', LA, [('''        M = M.reshape(-1)
        return np.concatenate((M.real, M.imag))''', '''        M = M.flatten()
        return np.hstack([np.real(M), np.imag(M)])''')], 'hstack')
ref('C33', HG, [('''    rfamily = []
    for vec in S:
        term = sum([val * family[i] for i, val in enumerate(vec)])
        # Eliminate entries that vanish
        if term:
            rfamily.append(term)
''', '''    candidates = (sum([member * val for val, member in zip(vec, family)]) for vec in S)
    rfamily = [term for term in candidates if term]
''')], 'generator')
ref('C33', HG, [("    ham = sum(term * c for c, term in zip(coeffs, family))", "    ham = 0\n    for i, term in enumerate(family):\n        ham = ham + term * coeffs[i]")], 'index')
bug('C33', LA, [("        T = rowmul(r, 1/lv)\n        S = T.dot(S)", "        T = rowmul(r, 1/lv)\n        S = S.dot(T)")], 'S from the right')
bug('C33', LA, [("        T = rowsub(r, red[:, lead])\n        S = T.dot(S)\n", "        T = rowsub(r, red[:, lead])\n")], 'S not updated')
bug('C33', LA, [("        return (red, S) if return_S else red\n", "        return red\n")], 'no S for zeros')
ref('C33', LA, [("        T = pivot(i, r)\n        S = T.dot(S)\n        red = T.dot(red)", "        if i != r:\n            T = pivot(i, r)\n            S = T @ S\n            red = T @ red")], 'pivot if needed')
