"""Reference statements about the command line tools (analysed, never executed)."""


def word(line):
    return line.strip()


def words3(line):
    return line.split()


def excluded(a, b, c, include_a, include_b, include_c):
    skip = set()
    if not include_a:
        skip.add(a)
    if not include_b:
        skip.add(b)
    if not include_c:
        skip.add(c)
    return skip


def analogy_query(a, b, c, norm):
    d = b - a + c
    return d / norm(d)


def selected(lines, embeds):
    words = []
    for line in lines:
        w = line.strip()
        if w not in words and embeds.embedding(w) is not None:
            words.append(w)
    return words


def unrepresentable(lines, embeds):
    return any(embeds.embedding(line.strip()) is None for line in lines)


def requested(lines, word):
    return any(line.strip() == word for line in lines)
