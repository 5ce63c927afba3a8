def t_a(x, y):
    class A:
        def __getattr__(self, n):
            if n == 'q': return x
            raise AttributeError(n)
    return A().q
def t_b(x, y):
    class A:
        def __getattr__(self, n):
            raise AttributeError(n)
    return getattr(A(), 'z', 0)
def t_c(x, y):
    class A:
        def __getattr__(self, n):
            raise AttributeError(n)
    return hasattr(A(), 'z')
