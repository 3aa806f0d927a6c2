"""A program with one mistake of each kind that the rules of resolve.py must report."""
import os
import logging

LOGGER = logging.getLogger("example")


class Leaf(object):
    def __init__(self, late=False):
        self.left = 1
        if late:
            self.right = 2

    def accept(self, visitor):
        return visitor.visit_leaf(self)


class Visitor(object):
    def visit_leaf(self, leaf):
        return leaf.right


class Other(object):
    def visit_node(self, node):
        return node.left


def member():
    return Leaf().middle


def module_member():
    return os.getcwdd()


def nothing():
    pass


def of_none():
    return nothing().left


def dispatch():
    return Leaf().accept(Visitor()), Leaf().accept(Other())


def takes_two(a, b):
    return a


def too_few():
    return takes_two(1)


def builtin_args(text):
    return len(text, text)


def solutions():
    yield 1


def tested():
    if solutions():
        return 1
    for value in solutions():
        return value


def undefined():
    return undefined_name


def unassigned(flag):
    if flag:
        value = 1
    return value


def percent():
    return "%s and %s" % (1,)


def braces():
    return "{} and {}".format(1)


def log():
    LOGGER.error("%s and %d", 1)


def fine(flag):
    leaf = Leaf(True)
    if flag:
        value = leaf.left
    else:
        value = takes_two(1, b=2)
    LOGGER.error("%s %s", value, os.getcwd())
    return "%s" % value
