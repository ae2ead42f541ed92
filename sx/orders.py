"""
The order of sets.  The order in which a set gives its items depends on hashes of text and on addresses, so it differs
between runs of the same program.  In the instrumented copy, and in the copy used for concrete runs (typedload_cs: the
plain source plus these calls), the places where a set may be iterated are marked: what is iterated there goes through
order(), and the receiver of .pop() through pop().  They are the identity, unless a harness chooses the order.
"""
import ast
import enum
import itertools
import typing

TYPING = tuple({type(x) for x in (typing.List[int], typing.Union[int, str], typing.Literal[1], typing.Any, typing.Tuple[int, ...], list[int], int | str, typing.ForwardRef('X'), typing.NewType('N', int))})
HOOK = None         # items -> items, in the order chosen


def items(s):
    """in an order that is always the same"""
    return sorted(s, key=lambda x: (type(x).__name__, repr(x)))


def variable(s):
    """a set whose order is not the same in every run"""
    if not isinstance(s, (set, frozenset)) or len(s) < 2 or isinstance(s, Ordered):
        return False
    return all(isinstance(x, (str, bytes, type, int, float, type(None), enum.Enum) + TYPING) for x in s) and not all(isinstance(x, (int, float)) and not isinstance(x, enum.Enum) for x in s)


class Ordered(set):
    def __iter__(self):
        return iter(HOOK(self.sx_items) if HOOK is not None else self.sx_items)


def order(x):
    if HOOK is None or not variable(x):
        return x
    r = Ordered(x)
    r.sx_items = items(x)
    return r


def pop(x):
    if HOOK is None or not variable(x) or isinstance(x, frozenset):
        return x.pop

    def first():
        r = HOOK(items(x))[0]
        x.remove(r)
        return r
    return first


def permutations(n):
    """all for up to 3 items; for more every item comes first in two of them"""
    if n <= 3:
        return list(itertools.permutations(range(n)))
    return [tuple((i + d * j) % n for j in range(n)) for i in range(n) for d in (1, -1)]


class Orders(ast.NodeTransformer):
    def __init__(self, hook):
        self.hook = hook

    def wrap(self, e):
        if isinstance(e, (ast.Constant, ast.Lambda, ast.JoinedStr, ast.Starred)):
            return e
        return ast.copy_location(ast.Call(func=self.hook('order'), args=[e], keywords=[]), e)

    def visit_For(self, node):
        node = self.generic_visit(node)
        node.iter = self.wrap(node.iter)
        return node

    def visit_comprehension(self, node):
        node = self.generic_visit(node)
        node.iter = self.wrap(node.iter)
        return node

    def visit_Starred(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            node.value = self.wrap(node.value)
        return node

    def visit_YieldFrom(self, node):
        node = self.generic_visit(node)
        node.value = self.wrap(node.value)
        return node

    def visit_Assign(self, node):
        node = self.generic_visit(node)
        if any(isinstance(t, (ast.Tuple, ast.List)) for t in node.targets):
            node.value = self.wrap(node.value)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_Call(self, node):
        node = self.generic_visit(node)
        node.args = [self.wrap(a) for a in node.args] if not (isinstance(node.func, ast.Name) and node.func.id in ('super', 'isinstance', 'hasattr', 'getattr', 'type', 'len')) else node.args
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'pop' and not node.args:
            node.func = ast.copy_location(ast.Call(func=self.hook('pop'), args=[node.func.value], keywords=[]), node.func)
        return node
