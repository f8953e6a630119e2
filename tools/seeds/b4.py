SEEDS = []
def S(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo))

S("p14-names-map", "P14", "a layer of a nested model bears the name of a layer of the network",
  "layers shared by several nodes are recognised by their name instead of their identity when converted",
  [("models/forward_cloning.py", "                if id(layer) in layer2layer_map:\n", "                if layer.name in layer2layer_map:\n"),
   ("models/forward_cloning.py", "                    converted_layers = layer2layer_map[id(layer)]\n", "                    converted_layers = layer2layer_map[layer.name]\n"),
   ("models/forward_cloning.py", "                    layer2layer_map[id(layer)] = converted_layers\n", "                    layer2layer_map[layer.name] = converted_layers\n")],
"""from h import *
ok = True
for seed in range(6):
    si = Input((2,)); sub = Model(si, Dense(2, name="d1", activation="relu")(si))
    i = Input((2,)); m = setw(Model(i, Dense(2, name="d2")(sub(Dense(2, name="d1")(i)))), seed=seed)
    ok &= sound(m, [0, -1], [0.1, -0.9], "forward-hybrid") and sound(m, [0, -1], [0.1, -0.9], "crown")
finish(ok)
""")

S("p14-nested-twice", "P14", "a nested model is used twice by the network",
  "outputs of the nodes of a nested model are remembered between its uses, so the second use returns the bounds of the first",
  [("models/forward_cloning.py", "                    layer2layer_map=layer2layer_map,\n                )\n                count", "                    layer2layer_map=layer2layer_map, output_map=output_map,\n                )\n                count")],
"""from h import *
si = Input((2,)); sub = Model(si, Dense(2, activation="relu")(si))
i = Input((2,)); m = setw(Model(i, Dense(1)(sub(Dense(2)(sub(i))))))
finish(sound(m, [-1, -1], [1, 1], "forward-hybrid") and sound(m, [0, -1], [0.1, 1], "crown"))
""")

S("p14-depth-text", "P14", "a network of more than ten layers",
  "depths of the layers are sorted as texts when converting a network",
  [("models/forward_cloning.py", "    keys.sort(reverse=True)\n", "    keys.sort(key=str, reverse=True)\n")],
"""from h import *
i = Input((2,)); t = Dense(2, activation="relu")(i)
for k in range(10):
    t = Dense(2)(t)
m = setw(Model(i, Dense(1)(t)), scale=0.5)
try:
    ok = sound(m, [-1, -1], [1, 1], "forward-ibp") and sound(m, [0, -1], [0.1, 1], "crown")
except Exception as e:
    print(e)
    ok = False
finish(ok)
""")
