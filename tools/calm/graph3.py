# ready nodes in a dict, nodes handed out one by one, a cycle found by walking back from what is left
edits = [
("big/graph.py", '''            self._ready = []
''', '''            self._ready = {}
'''),
("big/graph.py", '''            self._ready.extend(self.graph._stock_view._ready)
''', '''            self._ready.update(self.graph._stock_view._ready)
'''),
("big/graph.py", '''                self._predecessors[node] = 0
                self._ready.append(node)
''', '''                self._ready[node] = None
                self._predecessors[node] = 0
'''),
("big/graph.py", '''                    try:
                        # why "try" here?
                        # successor might be yielded or done.
                        # (in which case we must be conflicted.)
                        self._ready.remove(successor)
                    except ValueError:
                        pass
''', '''                    self._ready.pop(successor, None)
'''),
("big/graph.py", '''            if node in self._ready:
                self._ready.remove(node)
            self._yielded.discard(node)
''', '''            self._yielded.discard(node)
            if node in self._ready:
                del self._ready[node]
'''),
("big/graph.py", '''                if not self._predecessors[successor]:
                    self._ready.append(successor)
''', '''                if self._predecessors[successor] == 0:
                    self._ready[successor] = None
'''),
("big/graph.py", '''            print("      _ready:", _hopefully_sorted_collection(self._ready))
''', '''            print("      _ready:", _hopefully_sorted_collection(list(self._ready)))
'''),
("big/graph.py", '''            self._yielded.update(self._ready)
            ready = list(self._ready)
            self._ready.clear()
            return tuple(ready)
''', '''            ready, self._ready = tuple(self._ready), {}
            for node in ready:
                self._yielded.add(node)
            return ready
'''),
("big/graph.py", '''        # pick a node at random and see''', '''        before = {}
        for node in nodes:
            for successor in self.nodes[node][1]:
                before.setdefault(successor, node)
        # everything left depends on something left.
        path = {}
        node = next(iter(nodes))
        while node not in path:
            path[node] = len(path)
            node = before[node]
        return tuple(list(path)[path[node]:][::-1])

        # pick a node at random and see'''),
("big/graph.py", '''        v = self.view()
        try:
            while v:
                ready = v.ready()
                yield from ready
                v.done(*ready)
        finally:
            # the graph would keep the view, and keep updating it, forever.
            v.close()
''', '''        v = self.view()
        try:
            while True:
                if not v:
                    return
                batch = v.ready()
                for node in batch:
                    yield node
                v.done(*batch)
        finally:
            v.close()
'''),
("big/graph.py", '''        for n in dict.fromkeys((node, *dependencies)):
            n in self.nodes
''', '''        everything = dict.fromkeys((node,) + dependencies)
        for n in everything:
            self.nodes.get(n)
'''),
]
