"""the multi-layer perceptron in mathematics: layer sizes m[0..L-1], inputs n, weights W1..WL (rows of 1 + inputs), output weights V"""
from pyvc.dsl import *

COVERS = ["padasip/ann/mlp.py"]
n, N, q, epochs, rate = ivar("n"), ivar("N"), ivar("q"), ivar("epochs"), var("rate")
ACT = {"sigmoid": lambda s: 1 / (1 + exp(-s)), "tanh": lambda s: 2 / (1 + exp(-2 * s)) - 1}
SRC = """
import padasip as pa
import numpy as np

def build(layers, n, q, act, rate, W, V):
    net = pa.ann.NetworkMLP(layers, n, outputs=q, activation=act, mu=rate)
    for l in range(len(W)):
        net.layers[l].w[:] = W[l]
    net.w[:] = V
    return net

def weights(net):
    return [np.copy(l.w) for l in net.layers] + [np.copy(net.w)]
"""


def sizes(L):
    return [ivar("m%d" % (l + 1)) for l in range(L)]


def weight_inputs(L, many):
    m = sizes(L)
    ins = {"W%d" % (l + 1): A(m[l], (m[l - 1] if l else n) + 1) for l in range(L)}
    ins["V"] = A(q, m[-1] + 1) if many else A(m[-1] + 1)
    return ins


def args(L):
    """source text: the layer sizes and the hidden weights as lists"""
    return "[%s]" % ", ".join("m%d" % (l + 1) for l in range(L)), "[%s]" % ", ".join("W%d" % (l + 1) for l in range(L))


def forward(L, act, x, many, W=None, V=None):
    """outputs of every layer (functions of the node), and the network's output: a function of the output node, or a value"""
    m = sizes(L)
    W = W or [fn("W%d" % (l + 1)) for l in range(L)]
    V = V or fn("V")
    h, sz = [x], [n] + m
    for l in range(L):
        def node(j, l=l):
            return ACT[act](W[l](j, P(0)) + SUM(sz[l], lambda i: W[l](j, i + 1) * h[l](i)))
        h.append(node)
    if many:
        return h, lambda o: V(o, P(0)) + SUM(sz[L], lambda j: V(o, j + 1) * h[L](j))
    return h, V(P(0)) + SUM(sz[L], lambda j: V(j + 1) * h[L](j))
