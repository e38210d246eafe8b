"""functions of the standard library, said in terms of the language

Never run: the analysis reads these definitions in place of the calls, the
same way as it reads the functions of the repository.  Each is named after
the function it stands for, followed by the number of its arguments where
the number makes a difference.
"""


def itertools_starmap(function, iterable):
    return [function(*x) for x in iterable]


def itertools_filterfalse(predicate, iterable):
    return [x for x in iterable if not predicate(x)]


def itertools_compress(data, selectors):
    return [x for x, s in zip(data, selectors) if s]


def itertools_islice_2(iterable, stop):
    return list(iterable)[:stop]


def itertools_islice_3(iterable, start, stop):
    return list(iterable)[start:stop]


def itertools_islice_4(iterable, start, stop, step):
    return list(iterable)[start:stop:step]


def itertools_takewhile(predicate, iterable):
    found = []
    for x in iterable:
        if not predicate(x):
            break
        found.append(x)
    return found


def itertools_accumulate_1(iterable):
    total = 0
    found = []
    for x in iterable:
        total = total + x
        found.append(total)
    return found


def functools_reduce_2(function, iterable):
    values = list(iterable)
    value = values[0]
    for x in values[1:]:
        value = function(value, x)
    return value


def functools_reduce_3(function, iterable, value):
    for x in iterable:
        value = function(value, x)
    return value


def collections_ChainMap_1(first):
    return {**first}


def collections_ChainMap_2(first, second):
    return {**second, **first}


def collections_ChainMap_3(first, second, third):
    return {**third, **second, **first}


def operator_neg(a):
    return -a


def operator_not_(a):
    return not a


def operator_truth(a):
    return bool(a)


def operator_add(a, b):
    return a + b


def operator_sub(a, b):
    return a - b


def operator_mul(a, b):
    return a * b


def operator_truediv(a, b):
    return a / b


def operator_floordiv(a, b):
    return a // b


def operator_mod(a, b):
    return a % b


def operator_pow(a, b):
    return a**b


def operator_eq(a, b):
    return a == b


def operator_ne(a, b):
    return a != b


def operator_lt(a, b):
    return a < b


def operator_le(a, b):
    return a <= b


def operator_gt(a, b):
    return a > b


def operator_ge(a, b):
    return a >= b


def operator_is_(a, b):
    return a is b


def operator_is_not(a, b):
    return a is not b


def operator_contains(a, b):
    return b in a


def operator_getitem(a, b):
    return a[b]


def operator_itemgetter_1(key):
    return lambda value: value[key]


def operator_itemgetter_2(first, second):
    return lambda value: (value[first], value[second])


def operator_itemgetter_3(first, second, third):
    return lambda value: (value[first], value[second], value[third])
