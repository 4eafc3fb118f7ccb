"""All outcomes of the choices a history asks for (depth first, by replay)."""


def choices(run, limit=None, depth=None):
    """run(choose) is called once per sequence of choices; choose(n, what) -> 0..n-1. Yields the sequences."""
    todo = [[]]
    done = 0
    while todo:
        prefix = todo.pop()
        taken = []

        def choose(n, what='choice'):
            k = len(taken)
            v = prefix[k] if k < len(prefix) else 0
            if k >= len(prefix) and (depth is None or k < depth):
                for other in range(n - 1, 0, -1):
                    todo.append(taken + [other])
            taken.append(v)
            return v
        run(choose)
        done += 1
        yield taken
        if limit and done >= limit:
            raise AssertionError('more than %d sequences of choices' % limit)
