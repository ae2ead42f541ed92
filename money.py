"""Classes made basic types by C32, and objects with fields of them."""
import dataclasses
import typing

import attr


class Money:
    """keeps what it was made of"""
    fails = None
    made = 0

    def __init__(self, x):
        Money.made += 1
        if Money.fails is not None:
            raise Money.fails('refused')
        self.x = x


class Coin(Money):
    pass


class Stone:
    def __init__(self, *a):
        raise ValueError('refused')


class NTMoney(typing.NamedTuple):
    m: Money
    n: int = 3


@dataclasses.dataclass
class DCMoney:
    m: Money
    n: typing.Optional[Money] = None


@attr.s
class ATMoney:
    m = attr.ib(type=Money)
    n = attr.ib(type=typing.List[Money], factory=list)


class TDMoney(typing.TypedDict):
    m: Money
    n: typing.NotRequired[int]
