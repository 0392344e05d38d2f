"""Reference statements about similarity queries (analysed, never executed)."""


def best_scores(words, storage, query, k, skip):
    scores = []
    for i in range(len(words)):
        if words[i] not in skip:
            scores.append(storage[i].dot(query))
    return sorted(scores, reverse=True)[:k]


def result_scores(results):
    return [result.similarity for result in results]


def result_words(results):
    return [result.word for result in results]


def permitted(results, words, skip):
    for result in results:
        if result.word in skip or result.word not in words:
            return False
    return True


def distinct(results):
    return len({result.word for result in results}) == len(results)


def own_scores(results, word_index, storage, query):
    return [storage[word_index[result.word]].dot(query) for result in results]
