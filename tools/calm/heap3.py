# indexing through one helper; iterator over a reversed sorted list; version as an object
edits = [
("big/heap.py", '''            self._copy = heap._queue.copy()
            self._version = heap._version
''', '''            self._copy = sorted(heap._queue, reverse=True)
            self._version = heap._version
'''),
("big/heap.py", '''            return heappop(self._copy)
''', '''            return self._copy.pop()
'''),
("big/heap.py", '''        o = heappushpop(self._queue, o)
        self._version += 1
        return o
''', '''        if self._queue and self._queue[0] < o:
            o = heapreplace(self._queue, o)
        self._version += 1
        return o
'''),
("big/heap.py", '''        elif 0 < item < 10:
            l = nsmallest(item + 1, self._queue)
            return l[item]
        elif -10 < item < 0:
            # nlargest returns the largest... IN REVERSE ORDER.  *smh*
            l = nlargest(-item, self._queue)
            if len(l) < -item:
                raise IndexError("heap index out of range")
            return l[-1]
        l = sorted(self._queue)
''', '''        l = self._queue[:]
        l.sort()
'''),
("big/heap.py", '''        queue = list(self._queue)
        queue.sort()
        return queue
''', '''        copy = self._queue.copy()
        heapify(copy)
        return [heappop(copy) for _ in range(len(copy))]
'''),
]
