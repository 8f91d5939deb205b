"""Generated ensembles of regression trees, their text in every supported format, and a reference scorer."""
import random

import numpy as np

F32 = np.float32


class Tree:
    """preorder arrays; node 0 is the root; feature -1 for leaves"""

    def __init__(self):
        self.feature, self.value, self.left, self.right, self.weight = [], [], [], [], 1.0

    def add(self, feature, value):
        self.feature.append(feature)
        self.value.append(F32(value))
        self.left.append(-1)
        self.right.append(-1)
        return len(self.feature) - 1

    def n_leaves(self):
        return sum(1 for f in self.feature if f < 0)

    def height(self):
        d = [0] * len(self.feature)
        for i in range(len(self.feature)):
            if self.feature[i] >= 0:
                d[self.left[i]] = d[self.right[i]] = d[i] + 1
        return max(d)


def gen_tree(rng, n_feat, shape, size, vals, thrs, weight):
    t = Tree()
    t.weight = weight

    def leaf():
        return t.add(-1, vals(rng))

    def build(budget, depth):
        """budget: number of internal nodes of the subtree"""
        if budget <= 0 or depth > 55:
            return leaf()
        i = t.add(rng.randrange(n_feat), thrs(rng))
        if shape == 'left':
            l, r = budget - 1, 0
        elif shape == 'right':
            l, r = 0, budget - 1
        elif shape == 'balanced':
            l = (budget - 1) // 2
            r = budget - 1 - l
        else:
            l = rng.randrange(budget)
            r = budget - 1 - l
        t.left[i] = build(l, depth + 1)
        t.right[i] = build(r, depth + 1)
        return i
    build(size, 0)
    return t


def complete_tree(rng, n_feat, depth, vals, thrs):
    """oblivious: the same condition on every node of a level"""
    t = Tree()
    cond = [(rng.randrange(n_feat), thrs(rng)) for _ in range(depth)]

    def build(d):
        if d == depth:
            return t.add(-1, vals(rng))
        i = t.add(*cond[d])
        t.left[i] = build(d + 1)
        t.right[i] = build(d + 1)
        return i
    build(0)
    return t


def dyadic(rng):
    return F32(rng.randrange(-32, 33) / 8)


def wild(rng):
    k = rng.random()
    if k < .5:
        return F32(rng.gauss(0, 1))
    if k < .8:
        return F32(rng.gauss(0, 1) * 10 ** rng.randrange(-8, 9))
    return F32(rng.choice([0.0, 1.0, -1.0, 0.5, 33554432.0, 1e-20, 3e20, 16777217.0, 1e10, -1e10]))


def half(rng):
    return F32(rng.randrange(-9, 9) / 2 + .25)


def ensemble(seed, n_trees, size, n_feat, vals='dyadic', thrs='half', weights=True, shape=None, leaf_trees=0.0, same_size=False):
    rng = random.Random(seed)
    fv = {'dyadic': dyadic, 'wild': wild}[vals]
    ft = {'half': half, 'wild': wild, 'dyadic': dyadic}[thrs]
    out = []
    for _ in range(n_trees):
        sh = shape or rng.choice(['random', 'random', 'balanced', 'left', 'right'])
        k = size if same_size else rng.randrange(1, size + 1)
        if leaf_trees and rng.random() < leaf_trees:
            k = 0
        w = rng.choice([1.0, 0.5, 2.0, 0.25, 1.5]) if weights else 1.0
        out.append(gen_tree(rng, n_feat, sh, k, fv, ft, w))
    return out


# ------------------------------------------------------------------------------------------------- the text formats
def r(v):
    return repr(float(F32(v)))


def to_quickrank(trees, indent=True):
    out = ['<ranker>', '\t<info>', '\t\t<type>MART</type>', '\t\t<trees>%d</trees>' % len(trees), '\t\t<shrinkage>1.0</shrinkage>', '\t</info>',
           '\t<ensemble>']

    def node(t, i, pos, d):
        ind = '\t' * d
        out.append('%s<split%s>' % (ind, ' pos="%s"' % pos if pos else ''))
        if t.feature[i] < 0:
            out.append('%s\t<output>%s</output>' % (ind, r(t.value[i])))
        else:
            out.append('%s\t<feature>%d</feature>' % (ind, t.feature[i] + 1))
            out.append('%s\t<threshold>%s</threshold>' % (ind, r(t.value[i])))
            node(t, t.left[i], 'left', d + 1)
            node(t, t.right[i], 'right', d + 1)
        out.append('%s</split>' % ind)
    for k, t in enumerate(trees):
        out.append('\t\t<tree id="%d" weight="%s">' % (k + 1, r(t.weight)))
        node(t, 0, None, 3)
        out.append('\t\t</tree>')
    out += ['\t</ensemble>', '</ranker>']
    return '\n'.join(out) if indent else ''.join(x.strip() for x in out)


def split_leaf_order(t, rng):
    """numbers the splits (root first, parents before their children as the learners do) and the leaves, in some order"""
    splits = [i for i, f in enumerate(t.feature) if f >= 0]
    leaves = [i for i, f in enumerate(t.feature) if f < 0]
    rng.shuffle(leaves)
    if splits:
        ready, order = [splits[0]], []
        while ready:
            i = ready.pop(rng.randrange(len(ready)))
            order.append(i)
            ready += [c for c in (t.left[i], t.right[i]) if t.feature[c] >= 0]
        splits = order
    sid = {n: k for k, n in enumerate(splits)}
    lid = {n: k for k, n in enumerate(leaves)}

    def ref(n):
        return str(sid[n] if n in sid else -lid[n] - 1)
    return splits, leaves, ref


def to_lightgbm(trees, seed=0):
    rng = random.Random(seed)
    out = ['tree', 'num_class=1', 'num_tree_per_iteration=1', 'label_index=0', 'max_feature_idx=50', 'objective=lambdarank', '']
    for k, t in enumerate(trees):
        splits, leaves, ref = split_leaf_order(t, rng)
        n = len(splits)
        out += ['Tree=%d' % k, 'num_leaves=%d' % len(leaves), 'num_cat=0',
                'split_feature=' + ' '.join(str(t.feature[i]) for i in splits),
                'split_gain=' + ' '.join('1' for _ in splits),
                'threshold=' + ' '.join(r(t.value[i]) for i in splits),
                'decision_type=' + ' '.join('2' for _ in splits),
                'left_child=' + ' '.join(ref(t.left[i]) for i in splits),
                'right_child=' + ' '.join(ref(t.right[i]) for i in splits),
                'leaf_value=' + ' '.join(r(t.value[i]) for i in leaves),
                'leaf_count=' + ' '.join('1' for _ in leaves), 'internal_value=' + ' '.join('0' for _ in splits),
                'shrinkage=0.1', '', '']
    out += ['feature importances:', 'Column_1=3', '']
    return '\n'.join(out)


def to_xgboost(trees):
    out = []
    for k, t in enumerate(trees):
        out.append('booster[%d]:' % k)
        ids, level = {0: 0}, [0]
        n = 1
        while level:   # breadth-first identifiers, lines in depth-first order, as XGBoost does
            nxt = []
            for i in level:
                if t.feature[i] >= 0:
                    ids[t.left[i]], ids[t.right[i]] = n, n + 1
                    n += 2
                    nxt += [t.left[i], t.right[i]]
            level = nxt

        def node(i, d):
            if t.feature[i] < 0:
                out.append('%s%d:leaf=%s' % ('\t' * d, ids[i], r(t.value[i])))
            else:
                out.append('%s%d:[f%d<%s] yes=%d,no=%d,missing=%d' % ('\t' * d, ids[i], t.feature[i], r(t.value[i]), ids[t.left[i]],
                                                                     ids[t.right[i]], ids[t.left[i]]))
                node(t.left[i], d + 1)
                node(t.right[i], d + 1)
        node(0, 0)
    return '\n'.join(out) + '\n'


def to_scikit(trees, base, rate):
    out = ['base_score=%s' % r(base), 'learning_rate=%s' % r(rate)]
    for k, t in enumerate(trees):
        out.append('booster[%d] [%s]:' % (k, ' '.join('f%d' % f for f in sorted({f for f in t.feature if f >= 0}))))

        def node(i, d):
            if t.feature[i] < 0:
                out.append('%s%d:leaf=%s' % ('\t' * d, i, r(t.value[i])))
            else:
                out.append('%s%d:[f%d<=%s]' % ('\t' * d, i, t.feature[i], r(t.value[i])))
                node(t.left[i], d + 1)
                node(t.right[i], d + 1)
        node(0, 1)
    return '\n'.join(out) + '\n'


def to_jforests(trees, seed=0):
    rng = random.Random(seed)
    out = ['<Ensemble>']
    for t in trees:
        splits, leaves, ref = split_leaf_order(t, rng)
        out += ['\t<Tree leaves="%d" weight="%s">' % (len(leaves), r(t.weight)),
                '\t\t<SplitFeatures>%s</SplitFeatures>' % ' '.join(str(t.feature[i]) for i in splits),
                '\t\t<LeftChildren>%s</LeftChildren>' % ' '.join(ref(t.left[i]) for i in splits),
                '\t\t<RightChildren>%s</RightChildren>' % ' '.join(ref(t.right[i]) for i in splits),
                '\t\t<Thresholds>%s</Thresholds>' % ' '.join('17' for i in splits),
                '\t\t<OriginalThresholds>%s</OriginalThresholds>' % ' '.join(r(t.value[i]) for i in splits),
                '\t\t<LeafOutputs>%s</LeafOutputs>' % ' '.join(r(t.value[i]) for i in leaves), '\t</Tree>']
    out.append('</Ensemble>')
    return '\n'.join(out)


def to_coreml(trees, path):
    """complete trees only; nodes numbered from the leaves up, the root last"""
    from coremltools.proto import Model_pb2, TreeEnsemble_pb2
    m = Model_pb2.Model()
    m.specificationVersion = 1
    f = sorted({x for t in trees for x in t.feature if x >= 0}) or [0]
    for x in f:
        i = m.description.input.add()
        i.name = 'feature_%d' % x
        i.type.doubleType.SetInParent()
    o = m.description.output.add()
    o.name = 'prediction'
    o.type.multiArrayType.shape.append(1)
    o.type.multiArrayType.dataType = o.type.multiArrayType.ArrayDataType.Value('DOUBLE')
    m.description.predictedFeatureName = 'prediction'
    te = m.treeEnsembleRegressor.treeEnsemble
    te.numPredictionDimensions = 1
    te.basePredictionValue.append(0)
    B = TreeEnsemble_pb2.TreeEnsembleParameters.TreeNode.TreeNodeBehavior
    for k, t in enumerate(trees):
        level, order = [0], []
        while level:
            order = level + order if False else order + level
            level = [c for i in level if t.feature[i] >= 0 for c in (t.right[i], t.left[i])]
        n = len(order)
        ids = {node: n - 1 - pos for pos, node in enumerate(order)}
        for node in sorted(order, key=lambda x: ids[x]):
            x = te.nodes.add()
            x.treeId, x.nodeId = k, ids[node]
            if t.feature[node] < 0:
                x.nodeBehavior = B.Value('LeafNode')
                e = x.evaluationInfo.add()
                e.evaluationIndex = 0
                e.evaluationValue = float(t.value[node])
            else:
                x.nodeBehavior = B.Value('BranchOnValueGreaterThan')
                x.branchFeatureIndex = t.feature[node]
                x.branchFeatureValue = float(t.value[node])
                x.trueChildNodeId = ids[t.right[node]]
                x.falseChildNodeId = ids[t.left[node]]
    with open(path, 'wb') as fo:
        fo.write(m.SerializeToString())


# ------------------------------------------------------------------------------------------------- comparison
def diff(model, trees, weights=True, strict_less=False, value=None):
    """None if the model in memory is exactly these trees, otherwise what differs"""
    if model.n_trees != len(trees):
        return 'n_trees is %r, expected %d' % (model.n_trees, len(trees))
    total = sum(len(t.feature) for t in trees)
    if model.n_nodes != total:
        return 'n_nodes is %r, expected %d' % (model.n_nodes, total)
    arrays = [model.trees_left_child, model.trees_right_child, model.trees_nodes_value, model.trees_nodes_feature]
    for a in arrays:
        if len(a) != total:
            return 'an array has %d elements for %d nodes' % (len(a), total)
    if len(model.trees_root) != len(trees) or len(model.trees_weight) != len(trees):
        return 'wrong number of roots or weights'
    L, R, V, F = [a.tolist() if k != 2 else a for k, a in enumerate(arrays)]
    seen = set()
    for k, t in enumerate(trees):
        if weights and F32(model.trees_weight[k]) != F32(t.weight):
            return 'weight of tree %d is %r, expected %r' % (k, model.trees_weight[k], t.weight)
        if not weights and model.trees_weight[k] != 1:
            return 'weight of tree %d is %r, expected 1' % (k, model.trees_weight[k])
        stack = [(int(model.trees_root[k]), 0)]
        while stack:
            a, i = stack.pop()
            if not 0 <= a < total or a in seen:
                return 'tree %d: bad reference to node %d' % (k, a)
            seen.add(a)
            v = F32(t.value[i])
            if t.feature[i] >= 0 and strict_less:
                v = np.nextafter(v, F32(-np.inf))
            if V[a] != v:
                return 'tree %d: value %r, expected %r' % (k, V[a], v)
            if t.feature[i] < 0:
                if L[a] != -1 or R[a] != -1:
                    return 'tree %d: a leaf has children' % k
            else:
                if F[a] != t.feature[i]:
                    return 'tree %d: feature %d, expected %d' % (k, F[a], t.feature[i])
                stack += [(L[a], t.left[i]), (R[a], t.right[i])]
    if len(seen) != total:
        return '%d nodes are not part of any tree' % (total - len(seen))
    return None


def leaves_of(t, X):
    """index (in the tree) of the leaf reached by every document"""
    out = np.zeros(X.shape[0], dtype=np.int64)
    for d in range(X.shape[0]):
        i = 0
        while t.feature[i] >= 0:
            i = t.left[i] if F32(X[d, t.feature[i]]) <= t.value[i] else t.right[i]
        out[d] = i
    return out


def scores(trees, X, rate=1.0, base=0.0):
    """(y, partial, leaf values): float64 reference (exact for dyadic values)"""
    part = np.zeros((X.shape[0], len(trees)))
    leaf = np.zeros((X.shape[0], len(trees)), dtype=np.int64)
    for k, t in enumerate(trees):
        leaf[:, k] = leaves_of(t, X)
        part[:, k] = np.array(t.value, dtype=np.float64)[leaf[:, k]] * float(F32(t.weight))
    part = part * rate
    y = part.sum(axis=1) + (base or 0)
    return y, part, leaf


def load(trees, path, fmt='QuickRank', seed=0, base=0.0, rate=1.0, **kw):
    """writes the ensemble and loads it with the library"""
    from rankeval.model import RTEnsemble
    write(trees, path, fmt, seed, base, rate)
    return RTEnsemble(path, format=fmt, **kw)


def write(trees, path, fmt='QuickRank', seed=0, base=0.0, rate=1.0):
    if fmt == 'CatBoost':
        to_coreml(trees, path)
        return
    s = {'QuickRank': lambda: to_quickrank(trees), 'LightGBM': lambda: to_lightgbm(trees, seed), 'XGBoost': lambda: to_xgboost(trees),
         'ScikitLearn': lambda: to_scikit(trees, base, rate), 'Jforests': lambda: to_jforests(trees, seed)}[fmt]()
    with open(path, 'w') as f:
        f.write(s)
