"""Reference reconstruction of a quantized matrix (analysed, never executed)."""


def component(codes, quantizers, i, j):
    sub = len(quantizers[0][0])
    part = j // sub
    return quantizers[part][codes[i][part]][j - part * sub]


def value(codes, quantizers, projection, norms, i, j):
    if projection is None:
        x = component(codes, quantizers, i, j)
    else:
        x = sum(component(codes, quantizers, i, b) * projection[j][b] for b in range(len(projection)))
    if norms is not None:
        x = x * norms[i]
    return x


def rows_of(n, a, b, s):
    return list(range(n))[a:b:s]
