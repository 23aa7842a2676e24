from mut import B, K
PG = "polygons/polygons.py"
DC = "polygons/decomp.py"
MG = "polygons/merge.py"

# ---- P01
B("P01", PG, ("        new_seg = self._add_segment(seg.vtxs[0], seg.vtxs[1])\n        new_seg.attr", "        new_seg = self._add_segment(seg.vtxs[1], seg.vtxs[0])\n        new_seg.attr"))
B("P01", PG, ("        new_seg.attr = seg.attr\n", "        pass\n"))
B("P01", PG, ("        self._join_segments(mid_pt, seg, new_seg)\n", "        self._join_segments(mid_pt, new_seg, seg)\n"))
B("P01", PG, ("        self._rm_point(pt)\n\n    @undo.undoable\n    def _add_segment", "        pass\n\n    @undo.undoable\n    def _add_segment"))
B("P01", PG, ("        old_attr = obj.attr\n        obj.attr = attr\n", "        obj.attr = attr\n        old_attr = obj.attr\n"))
B("P01", PG, ("        if is_new:\n            self._rm_segment(seg)", "        self._rm_segment(seg)"))
B("P01", PG, ("        if is_new:\n            self._rm_segment(seg)", "        if not is_new:\n            self._rm_segment(seg)"))
B("P01", PG, ("is_new = len(self.segments) > n_segments", "is_new = len(self.segments) >= n_segments"))
B("P01", PG, ("        seg = self.segments[seg.id]\n        self.segments_lookup.rm_object", "        self.segments_lookup.rm_object"))
B("P01", PG, ("        self._rm_segment(seg)\n            seg_vtxs[b_idx] = a" if False else "                self._rm_segment(seg)\n", "                self.decomp.delete_segment(seg)\n"))
B("P01", PG, ("new_pt = self._add_point(pt.xy, pt.poly)", "new_pt = self._add_point(pt.xy, self.outer_polygon)"))
B("P01", DC, ("        new_seg.attr = seg.attr\n", ""))
K("P01", PG, ("is_new = len(self.segments) > n_segments", "is_new = n_segments < len(self.segments)"))
K("P01", PG, ("        n_segments = len(self.segments)\n", "        existing = (a_pt.id, b_pt.id) in self.decomp.pt_to_seg or (b_pt.id, a_pt.id) in self.decomp.pt_to_seg\n"), ("is_new = len(self.segments) > n_segments", "is_new = not existing"))
K("P01", PG, ("        new_seg = self._add_segment(seg.vtxs[0], seg.vtxs[1])\n        new_seg.attr = seg.attr\n", "        self._restore(seg)\n\n    def _restore(self, old):\n        a, b = old.vtxs\n        back = self._add_segment(a, b)\n        back.attr = old.attr\n"))
K("P01", PG, ("        old_attr = obj.attr\n        obj.attr = attr\n", "        obj.attr, old_attr = attr, obj.attr\n"))
K("P01", PG, ("        id_map = None\n        if isinstance(obj, decomp.Point):", "        id_map = {}\n        if isinstance(obj, decomp.Point):"))
K("P01", PG, ("        seg0 = self.segments[seg0.id]\n        seg1 = self.segments[seg1.id]\n", "        seg0, seg1 = (self.decomp.segments[s.id] for s in (seg0, seg1))\n"))

# ---- P02
UN = "undo.py"
B("P02", UN, ("            self._redos.clear()\n            self.docallback()", "            self.docallback()"))
B("P02", UN, ("            undoable = self._redos.pop()", "            undoable = self._redos.popleft()"))
B("P02", UN, ("                else:\n                    self._undos.append(undoable)", "                else:\n                    self._undos.appendleft(undoable)"))
B("P02", UN, ("        finally:\n            self._receiver = receiver", "        finally:\n            self._receiver = self._undos"))
B("P02", UN, ("        try:\n            yield\n        finally:\n            self._receiver = receiver", "        yield\n        self._receiver = receiver"))
B("P02", UN, ("in reversed(self._stack)", "in self._stack"))
B("P02", UN, ("        ret = action.do()\n        stack().append(action)\n", "        stack().append(action)\n        ret = action.do()\n"))
B("P02", UN, ("        return len(self._redos)\n", "        return len(self._undos)\n"))
B("P02", UN, ("self._savepoint >= len(self._undos)", "self._savepoint > len(self._undos)"))
B("P02", UN, ("            if self._savepoint is not None and self._savepoint >= len(self._undos):\n                # The saved state was in the discarded redo history.\n                self._savepoint = None\n", ""))
B("P02", UN, ("        stack()._receiver = self._outer_receiver\n        stack().append(self)", "        stack().append(self)\n        stack()._receiver = self._outer_receiver"))
B("P02", UN, ("        stack()._receiver = self._outer_receiver\n", "        stack().resetreceiver()\n"))
B("P02", UN, ("        stack()._receiver = self._outer_receiver\n        stack().append(self)\n", "        if exc_type is None:\n            stack()._receiver = self._outer_receiver\n        stack().append(self)\n"))
B("P02", UN, ("        self._undos.clear()\n        self._redos.clear()\n", "        self._undos.clear()\n"))
B("P02", UN, ("('Redo ' + self._redos[-1].text())", "('Redo ' + self._redos[0].text())"))
B("P02", UN, ("self._savepoint is None or self._savepoint != self.undocount()", "self._savepoint is None or self._savepoint > self.undocount()"))
B("P02", UN, ("                except:\n                    self.clear()\n                    raise\n                else:\n                    self._redos", "                except:\n                    self.clear()\n                else:\n                    self._redos"))
B("P02", UN, ("            with self._pausereceiver():\n                try:\n                    undoable.do()", "            if True:\n                try:\n                    undoable.do()"))
B("P02", UN, ("        self.setreceiver([])\n        try:", "        self.setreceiver(self._undos)\n        try:"))
K("P02", UN, ("        return len(self._undos) > 0", "        return bool(self._undos)"))
K("P02", UN, ("        if self.canredo():\n            undoable = self._redos.pop()", "        if self._redos:\n            undoable = self._redos.pop()"))
K("P02", UN, ("        if self.canundo():\n            undoable = self._undos.pop()\n            with self._pausereceiver():\n                try:\n                    undoable.undo()\n                except:\n                    self.clear()\n                    raise\n                else:\n                    self._redos.append(undoable)\n            self.undocallback()\n",
  "        if not self.canundo():\n            return\n        entry = self._undos.pop()\n        with self._pausereceiver():\n            try:\n                entry.undo()\n            except BaseException:\n                self.clear()\n                raise\n        self._redos.append(entry)\n        self.undocallback()\n"))
K("P02", UN, ("        return self._savepoint is None or self._savepoint != self.undocount()", "        if self._savepoint is None:\n            return True\n        return not (self.undocount() == self._savepoint)"))
K("P02", UN, ("            self._receiver.append(action)\n        if self._receiver is self._undos:\n", "            self._receiver.append(action)\n        recording_main = self._receiver is self._undos\n        if recording_main:\n"))
K("P02", UN, ("        for undoable in reversed(self._stack):\n            undoable.undo()", "        for step in self._stack[::-1]:\n            step.undo()"))
K("P02", UN, ("            if self._savepoint is not None and self._savepoint >= len(self._undos):\n                # The saved state was in the discarded redo history.\n                self._savepoint = None\n            self._redos.clear()", "            self._redos.clear()\n            n = len(self._undos)\n            if self._savepoint is not None and n <= self._savepoint:\n                self._savepoint = None"))
K("P02", UN, ("        self._outer_receiver = stack()._receiver\n        stack().setreceiver(self._stack)", "        st = stack()\n        self._outer_receiver = st._receiver\n        st.setreceiver(self._stack)"))

# ---- P03
AL = "polygons/aabb_lookup.py"
B("P03", PG, ("            self.points_lookup.add_object(pt.id, aabb_lookup.make_aabb([pt.xy], margin=self.tolerance))\n            for seg", "            for seg"))
B("P03", PG, ("            pt.move(displacement)\n            self.points_lookup.add_object(pt.id, aabb_lookup.make_aabb([pt.xy], margin=self.tolerance))\n", "            self.points_lookup.add_object(pt.id, aabb_lookup.make_aabb([pt.xy], margin=self.tolerance))\n            pt.move(displacement)\n"))
B("P03", PG, ("        seg = self.segments[seg.id]\n        self.segments_lookup.rm_object(seg.id)\n", "        seg = self.segments[seg.id]\n"))
B("P03", PG, ("        self.points_lookup.rm_object(pt.id)\n", "        self.segments_lookup.rm_object(pt.id)\n"))
B("P03", PG, ("        self.segments_lookup.rm_object(seg1.id)\n", "        self.segments_lookup.rm_object(seg0.id)\n"))
B("P03", PG, ("        self.decomp.join_segments(mid_pt, seg0, seg1)\n        self.segments_lookup.add_object(seg0.id,\n                                        aabb_lookup.make_aabb([seg0.vtxs[0].xy, seg0.vtxs[1].xy],\n                                                              margin=self.tolerance))\n", "        self.decomp.join_segments(mid_pt, seg0, seg1)\n"))
B("P03", PG, ("        self.decomp.join_segments(mid_pt, seg0, seg1)\n        self.segments_lookup.add_object(seg0.id,\n                                        aabb_lookup.make_aabb([seg0.vtxs[0].xy, seg0.vtxs[1].xy],\n                                                              margin=self.tolerance))\n", "        self.segments_lookup.add_object(seg0.id,\n                                        aabb_lookup.make_aabb([seg0.vtxs[0].xy, seg0.vtxs[1].xy],\n                                                              margin=self.tolerance))\n        self.decomp.join_segments(mid_pt, seg0, seg1)\n"))
B("P03", PG, ("aabb_lookup.make_aabb([new_seg.vtxs[0].xy, new_seg.vtxs[1].xy],", "aabb_lookup.make_aabb([new_seg.vtxs[0].xy, mid_pt.xy],"))
B("P03", PG, ("        self.segments_lookup.add_object(seg.id, aabb_lookup.make_aabb([vtxs[0].xy, vtxs[1].xy], margin=self.tolerance))\n", ""))
B("P03", PG, ("        self.segments_lookup.add_object(seg.id, aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance))\n", "        self.segments_lookup.add_object(seg.id, aabb_lookup.make_aabb([a_pt.xy, b_pt.xy]))\n"))
B("P03", PG, ("        candidates = self.points_lookup.closest_candidates(point)\n", "        candidates = self.segments_lookup.closest_candidates(point)\n"))
B("P03", PG, ("            for seg, side in pt.segments():\n                self.segments_lookup.add_object(seg.id,\n                                                aabb_lookup.make_aabb([seg.vtxs[0].xy, seg.vtxs[1].xy],\n                                                                      margin=self.tolerance))\n", "            for seg, side in pt.segments():\n                if side == out_vtx:\n                    self.segments_lookup.add_object(seg.id, aabb_lookup.make_aabb([seg.vtxs[0].xy, seg.vtxs[1].xy], margin=self.tolerance))\n"))
B("P03", AL, ("        self.n_boxes = max(self.n_boxes, id + 1)", "        self.n_boxes = max(self.n_boxes, id)"))
B("P03", AL, ("np.full((boxes_size, 4), self.inf), axis=0 )", "np.zeros((boxes_size, 4)), axis=0 )"))
B("P03", AL, ("        self.boxes[id, :] = self.inf", "        self.boxes[id, 0:2] = self.inf"))
B("P03", AL, ("        if self.n_removed > 0.2 * self.n_added and self.n_added > 1024:\n            # Only big sparse tables matters.\n            print(\"Warning: Too sparse AABB lookup.\")\n", "        if self.n_removed > 0.2 * self.n_added and self.n_added > 1024:\n            # Only big sparse tables matters.\n            print(\"Warning: Too sparse AABB lookup.\")\n            return\n"))
B("P03", AL, ("        if np.amin(inf_dists) > 0.5 * self.inf:\n            # only removed objects\n            return []\n", ""))
B("P03", AL, ("        l2_max = np.sqrt(2) * l_inf_max", "        l2_max = l_inf_max"))
B("P03", AL, ("        while id >= boxes_size:", "        while id > boxes_size:"))
B("P03", AL, ("    if margin > 0:", "    if margin > 1:"))
B("P03", AL, ("np.array([-1.0, -1.0, 1.0, 1.0])", "np.array([-1.0, -1.0, 1.0, -1.0])"))
B("P03", AL, ("(np.min(points, axis=0), np.max(points, axis=0))", "(np.max(points, axis=0), np.min(points, axis=0))"))
B("P03", AL, ("box[2: 4] < boxes[:, 0:2]", "box[2: 4] <= boxes[:, 2:4]"))
B("P03", AL, ("np.logical_or(not_intersect[:,0], not_intersect[:,1])", "np.logical_and(not_intersect[:,0], not_intersect[:,1])"))
B("P03", AL, ("        boxes = self.boxes[:self.n_boxes, :]\n        not_intersect", "        boxes = self.boxes\n        not_intersect"))
K("P03", PG, ("        for pt in points:\n            pt.move(displacement)\n", "        points = list(points)\n        for pt in points:\n            pt.move(displacement)\n        for pt in points:\n"))
K("P03", PG, ("            for seg, side in pt.segments():\n                self.segments_lookup.add_object(seg.id,\n                                                aabb_lookup.make_aabb([seg.vtxs[0].xy, seg.vtxs[1].xy],\n                                                                      margin=self.tolerance))\n",
   "            for seg, side in pt.segments():\n                self._update_box(seg)\n\n    def _update_box(self, s):\n        box = aabb_lookup.make_aabb([v.xy for v in s.vtxs], margin=self.tolerance)\n        self.segments_lookup.add_object(s.id, box)\n"))
K("P03", PG, ("        for pt in points:\n            pt.move(displacement)\n            self.points_lookup.add_object(pt.id, aabb_lookup.make_aabb([pt.xy], margin=self.tolerance))\n            for seg, side in pt.segments():\n                self.segments_lookup.add_object(seg.id,\n                                                aabb_lookup.make_aabb([seg.vtxs[0].xy, seg.vtxs[1].xy],\n                                                                      margin=self.tolerance))\n",
   "        touched = set()\n        for pt in points:\n            pt.move(displacement)\n            self.points_lookup.add_object(pt.id, aabb_lookup.make_aabb([pt.xy], margin=self.tolerance))\n            for seg, side in pt.segments():\n                touched.add(seg)\n        for seg in touched:\n            a, b = seg.vtxs\n            self.segments_lookup.add_object(seg.id, aabb_lookup.make_aabb([a.xy, b.xy], margin=self.tolerance))\n"))
K("P03", PG, ("        pt = self.points[pt.id]\n        self.points_lookup.rm_object(pt.id)\n        self.decomp.remove_free_point(pt)\n", "        pt = self.points[pt.id]\n        self.decomp.remove_free_point(pt)\n        self.points_lookup.rm_object(pt.id)\n"))
K("P03", AL, ("        self.n_boxes = max(self.n_boxes, id + 1)", "        if id >= self.n_boxes:\n            self.n_boxes = id + 1"))
K("P03", AL, ("np.logical_or(not_intersect[:,0], not_intersect[:,1])", "np.any(not_intersect, axis=1)"))
K("P03", AL, ("        if boxes.shape[0] == 0 :", "        if self.n_boxes == 0 :"))
K("P03", AL, ("        box += margin * _blow_box\n", "        box = box + _blow_box * margin\n"))
K("P03", PG, ("        vtxs = (self.decomp.points[v_out_id], self.decomp.points[v_in_id])\n        seg = self.decomp._make_segment(vtxs)\n", "        vtxs = (self.points[v_out_id], self.points[v_in_id])\n        seg = self.decomp._make_segment(vtxs)\n"))
K("P03", PG, ("            mid_pt = self._add_point(xy_point, self.decomp.outer_polygon)\n            new_seg = self._split_segment(seg, mid_pt)\n", "            mid_pt, new_seg = self._insert_mid(seg, xy_point)\n"), ("    def _add_line_seg_intersections(self, a_pt, b_pt):", "    def _insert_mid(self, s, xy):\n        p = self._add_point(xy, self.decomp.outer_polygon)\n        return p, self._split_segment(s, p)\n\n    def _add_line_seg_intersections(self, a_pt, b_pt):"))

# ---- P04
B("P04", DC, ("        del self.pt_to_seg[seg.point_ids()]\n        self.pt_to_seg[(seg.vtxs[0].id, mid_pt.id)] = seg\n", "        self.pt_to_seg[(seg.vtxs[0].id, mid_pt.id)] = seg\n"))
B("P04", DC, ("        self.pt_to_seg[(seg.vtxs[0].id, mid_pt.id)] = seg\n", "        self.pt_to_seg[(mid_pt.id, seg.vtxs[0].id)] = seg\n"))
B("P04", DC, ("        self.pt_to_seg[(seg.vtxs[0].id, mid_pt.id)] = seg\n", ""))
B("P04", DC, ("        del self.pt_to_seg[seg1.point_ids()]\n        del self.pt_to_seg[seg0.point_ids()]\n", "        del self.pt_to_seg[seg1.point_ids()]\n"))
B("P04", DC, ("        # fix pt_to_seg\n        self.pt_to_seg[seg0.point_ids()] = seg0\n", ""))
B("P04", DC, ("        # fix pt_to_seg\n        self.pt_to_seg[seg0.point_ids()] = seg0\n", "        self.pt_to_seg[(seg0.vtxs[0].id, mid_point.id)] = seg0\n"))
B("P04", DC, ("        self.pt_to_seg.pop((a, b), None)\n        self.pt_to_seg.pop((b, a), None)\n", "        self.pt_to_seg.pop((b, a), None)\n"))
B("P04", DC, ("        self.pt_to_seg[seg.point_ids()] = seg\n        return seg", "        self.pt_to_seg[tuple(sorted(seg.point_ids()))] = seg\n        return seg"))
B("P04", DC, ("        segment = self.pt_to_seg.get((b_pt.id, a_pt.id), None)\n        if segment is not None:\n            return segment\n", ""))
B("P04", DC, ("        segment = self.pt_to_seg.get((b_pt.id, a_pt.id), None)\n", "        segment = self.pt_to_seg.get((a_pt.id, b_pt.id), None)\n"))
B("P04", "polygons/segment.py", ("        return (self.vtxs[out_vtx].id, self.vtxs[in_vtx].id)", "        return (self.vtxs[in_vtx].id, self.vtxs[out_vtx].id)"))
B("P04", PG, ("                seg_vtxs = list(seg.vtxs)\n", "                seg_vtxs = seg.vtxs\n"))

K("P04", DC, ("        segment = self.pt_to_seg.get((a_pt.id, b_pt.id), None)\n        if segment is not None:\n            return segment\n        segment = self.pt_to_seg.get((b_pt.id, a_pt.id), None)\n        if segment is not None:\n            return segment\n", "        for key in ((a_pt.id, b_pt.id), (b_pt.id, a_pt.id)):\n            if key in self.pt_to_seg:\n                return self.pt_to_seg[key]\n"))
K("P04", DC, ("        segment = self.pt_to_seg.get((a_pt.id, b_pt.id), None)\n        if segment is not None:\n            return segment\n        segment = self.pt_to_seg.get((b_pt.id, a_pt.id), None)\n        if segment is not None:\n            return segment\n", "        segment = self._find(a_pt, b_pt) or self._find(b_pt, a_pt)\n        if segment is not None:\n            return segment\n"), ("    def delete_segment(self, segment):", "    def _find(self, p, q):\n        return self.pt_to_seg.get((p.id, q.id))\n\n    def delete_segment(self, segment):"))
K("P04", DC, ("        del self.pt_to_seg[seg.point_ids()]\n        self.pt_to_seg[(seg.vtxs[0].id, mid_pt.id)] = seg\n", "        self._rekey(seg, mid_pt)\n"), ("    def join_segments(self, mid_point", "    def _rekey(self, s, m):\n        del self.pt_to_seg[s.point_ids()]\n        self.pt_to_seg[(s.vtxs[out_vtx].id, m.id)] = s\n\n    def join_segments(self, mid_point"))
K("P04", DC, ("        a, b = seg.point_ids()\n        self.pt_to_seg.pop((a, b), None)\n        self.pt_to_seg.pop((b, a), None)\n", "        self.pt_to_seg.pop(seg.point_ids(), None)\n"))
K("P04", DC, ("        # fix pt_to_seg\n        self.pt_to_seg[seg0.point_ids()] = seg0\n\n        self._destroy_segment(seg1)\n", "        self._destroy_segment(seg1)\n        self.pt_to_seg[seg0.point_ids()] = seg0\n"))
K("P04", DC, ("        seg.vtxs[in_vtx] = mid_pt\n        seg._vector = seg.vtxs[in_vtx].xy - seg.vtxs[out_vtx].xy\n", "        seg.vtxs = [seg.vtxs[out_vtx], mid_pt]\n        seg.update_vector()\n"))

# ---- P05
SG = "polygons/segment.py"
PTF = "polygons/point.py"
B("P05", PTF, ("        for seg, side in self.segments():\n            seg.update_vector()", "        for seg, side in self.segments():\n            if side == out_vtx:\n                seg.update_vector()"))
B("P05", PTF, ("        self.xy += move_vec\n        for seg, side in self.segments():\n            seg.update_vector()", "        self.xy += move_vec"))
B("P05", DC, ("        seg0.update_vector()\n", ""))
B("P05", DC, ("        seg0.vtxs[seg0_in_vtx] = seg1.vtxs[seg1_in_vtx]\n        seg0.update_vector()\n", "        seg0.update_vector()\n        seg0.vtxs[seg0_in_vtx] = seg1.vtxs[seg1_in_vtx]\n"))
B("P05", DC, ("        seg._vector = seg.vtxs[in_vtx].xy - seg.vtxs[out_vtx].xy\n", "        seg._vector = new_seg.vtxs[in_vtx].xy - seg.vtxs[out_vtx].xy\n"))
B("P05", SG, ("        self._vector = (self.vtxs[in_vtx].xy - self.vtxs[out_vtx].xy)", "        self._vector = (self.vtxs[out_vtx].xy - self.vtxs[in_vtx].xy)"))
B("P05", SG, ("        return self._vector.copy()", "        return self._vector"))
B("P05", PTF, ("            seg_vec = seg.vector\n", "            seg_vec = seg._vector\n"))
B("P05", PG, ("            pt.move(displacement)\n", "            pt.xy += displacement\n"))
B("P05", PG, ("                seg_vtxs = list(seg.vtxs)\n                self._rm_segment(seg)\n                seg_vtxs[b_idx] = a\n                self._add_segment(*seg_vtxs)\n", "                seg.vtxs[b_idx] = a\n"))
K("P05", PTF, ("        for seg, side in self.segments():\n            seg.update_vector()", "        for s in [seg for seg, side in self.segments()]:\n            s.update_vector()"))
K("P05", PTF, ("        self.xy += move_vec\n", "        self.xy = self.xy + move_vec\n"))
K("P05", DC, ("        seg0.update_vector()\n", "        seg0._vector = seg0.vtxs[1].xy - seg0.vtxs[0].xy\n"))
K("P05", DC, ("        seg.vtxs[in_vtx] = mid_pt\n        seg._vector = seg.vtxs[in_vtx].xy - seg.vtxs[out_vtx].xy\n", "        self._set_end(seg, mid_pt)\n"), ("    def join_segments(self, mid_point", "    def _set_end(self, s, pt):\n        s.vtxs[in_vtx] = pt\n        s.update_vector()\n\n    def join_segments(self, mid_point"))
K("P05", SG, ("        return self._vector.copy()", "        return np.array(self._vector)"), ("from . import idmap\n", "from . import idmap\nimport numpy as np\n"))
K("P05", SG, ("        self._vector = (self.vtxs[in_vtx].xy - self.vtxs[out_vtx].xy)", "        start, end = self.vtxs\n        self._vector = end.xy - start.xy"))

# ---------------------------------------------------------------- P08
IM = "polygons/idmap.py"
B("P08", IM, ("return self._free_ids.pop()", "return self._free_ids[-1]"))
B("P08", IM, ("return self._free_ids.pop()", "return self._free_ids.pop(0)"))
B("P08", IM, ("        self._next_id += 1\n", "        self._next_id = len(self)\n"))
B("P08", IM, ("        self._next_id += 1\n", ""))
B("P08", IM, ("        self[obj.id] = obj\n", "        self.setdefault(obj.id, obj)\n"))
B("P08", IM, ("        self._free_ids.append(obj.id)\n", "        self._free_ids.append(obj.id)\n        self._free_ids.append(obj.id)\n"))
B("P08", IM, ("        self._free_ids.append(obj.id)\n", "        self._free_ids.insert(0, obj.id)\n"))
B("P08", IM, ("        self._free_ids.append(obj.id)\n", "        if obj.id < self._next_id:\n            self._free_ids.append(obj.id)\n"))
B("P08", IM, ("        obj.id = id\n", "        obj.id = getattr(obj, 'id', id)\n"))
B("P08", IM, ("return self.id == other.id", "return self is other"))
B("P08", IM, ("return self.id == other.id", "return self.__dict__ == other.__dict__"))
B("P08", "polygons/polygon.py", ("    def __hash__(self):\n        return self.id\n", "    def __hash__(self):\n        return hash((self.id, len(self.childs)))\n"))
B("P08", DC, ("        self.wires.remove(rm_wire)\n\n        return new_seg", "        del self.wires[rm_wire.id]\n\n        return new_seg"))
B("P08", DC, ("        self.wires.remove(rm_wire)\n        self.polygons.remove(new_polygon)\n", "        self.wires.remove(rm_wire)\n        self.polygons.remove(new_polygon)\n        if rm_wire != keep_wire:\n            self.wires.remove(rm_wire)\n"))
B("P08", DC, ("        self.wires.remove(wire)\n        self._destroy_segment(segment)", "        self.polygons.remove(wire)\n        self._destroy_segment(segment)"))
K("P08", IM, ("        if self._free_ids:\n            return self._free_ids.pop()\n        self._next_id += 1\n        return self._next_id\n",
  "        if not self._free_ids:\n            new = self._next_id + 1\n            self._next_id = new\n            return new\n        last = self._free_ids.pop(-1)\n        return last\n"))
K("P08", IM, ("        id = self.get_new_id()\n        obj.id = id\n        self[obj.id] = obj\n        return obj\n", "        obj.id = new_id = self.get_new_id()\n        self[new_id] = obj\n        return obj\n"))
K("P08", IM, ("        del self[obj.id]\n        self._free_ids.append(obj.id)\n", "        key = obj.id\n        self.pop(key)\n        self._free_ids += [key]\n"))
K("P08", IM, ("return self.id == other.id", "same = self.id == other.id\n        return same"))

# ---------------------------------------------------------------- P33
B("P33", PTF, ("                self.poly.free_points.remove(self)\n            self.poly = None\n", "                pass\n            self.poly = None\n"))
B("P33", PTF, ("            self.poly = None\n            self.segment = (seg, vtx)", "            self.segment = (seg, vtx)"))
B("P33", PTF, ("            self.poly = None\n            self.segment = (seg, vtx)", "            self.poly = None\n        self.segment = (seg, 1 - vtx)"))
B("P33", PTF, ("            self.poly = None\n            self.segment = (seg, vtx)", "            self.poly = None\n            self.segment = (seg, 1 - vtx)"))
B("P33", PTF, ("        if self.is_free():\n            if self.poly", "        if not self.is_free():\n            if self.poly"))
B("P33", PTF, ("            if not new_seg == seg:\n", "            if new_seg == seg:\n"))
B("P33", PTF, ("        assert seg.is_dendrite()\n        self.set_polygon(seg.wire[left_side].polygon)", "        assert seg.is_dendrite()\n        self.poly = seg.wire[left_side].polygon\n        self.segment = (None, None)"))
B("P33", PTF, ("        self.poly = polygon\n        polygon.free_points.add(self)\n", "        polygon.free_points.add(self)\n"))
B("P33", PTF, ("        self.poly = polygon\n        polygon.free_points.add(self)\n", "        self.poly = polygon\n"))
B("P33", PTF, ("        if self.poly is not None:\n            self.poly.free_points.remove(self)\n        self.poly = polygon\n", "        self.poly = polygon\n"))
B("P33", PTF, ("        if self.poly is not None:\n            self.poly.free_points.remove(self)\n        self.poly = polygon\n", "        old = self.poly\n        self.poly = polygon\n        if self.poly is not None:\n            self.poly.free_points.discard(self)\n"))
B("P33", PTF, ("        self.segment = (None, None)\n\n\n    def move", "\n\n    def move"))
B("P33", PTF, ("        return self.segment[0] is None", "        return self.segment[0] is not None"))
B("P33", DC, ("        poly.free_points.add(pt)\n", ""))
B("P33", DC, ("        poly.free_points.add(pt)\n", "        self.outer_polygon.free_points.add(pt)\n"))
B("P33", DC, ("        point.poly.free_points.remove(point)\n", ""))
B("P33", DC, ("            if new_poly.outer_wire.contains_point(pt.xy):\n                pt.set_polygon(new_poly)", "            if not new_poly.outer_wire.contains_point(pt.xy):\n                pt.set_polygon(new_poly)"))
B("P33", DC, ("            if new_poly.outer_wire.contains_point(pt.xy):\n                pt.set_polygon(new_poly)", "            if orig_poly.outer_wire.contains_point(pt.xy):\n                pt.set_polygon(new_poly)"))
B("P33", DC, ("            if new_poly.outer_wire.contains_point(pt.xy):\n                pt.set_polygon(new_poly)", "            if new_poly.outer_wire.contains_point(pt.xy):\n                pt.poly = new_poly\n                new_poly.free_points.add(pt)"))
B("P33", DC, ("        for pt in list(orig_poly.free_points):", "        for pt in orig_poly.free_points:"))
B("P33", DC, ("        for pt in list(new_polygon.free_points):\n            pt.set_polygon(orig_polygon)\n", ""))
B("P33", DC, ("        for pt in list(new_polygon.free_points):\n            pt.set_polygon(orig_polygon)\n", "        for pt in list(orig_polygon.free_points):\n            pt.set_polygon(orig_polygon)\n"))
B("P33", DC, ("        seg.vtxs[in_vtx].rm_segment(seg, in_vtx)\n        a, b", "        a, b"))
B("P33", DC, ("        seg.vtxs[in_vtx].rm_segment(seg, in_vtx)\n        a, b", "        seg.vtxs[in_vtx].rm_segment(seg, out_vtx)\n        a, b"))
B("P33", DC, ("        for vtx in [out_vtx, in_vtx]:\n            seg.vtxs[vtx].join_segment(seg, vtx)\n", "        seg.vtxs[out_vtx].join_segment(seg, out_vtx)\n"))
B("P33", DC, ("        mid_point.set_polygon(seg0.wire[left_side].polygon) # any side\n", "        mid_point.segment = (None, None)\n"))
B("P33", SG, ("        self.vtxs[vtx_idx].rm_segment(self, vtx_idx)\n", "        self.vtxs[vtx_idx].rm_segment(self, 1 - vtx_idx)\n"))
K("P33", PTF, ("        if self.poly is not None:\n            self.poly.free_points.remove(self)\n        self.poly = polygon\n        polygon.free_points.add(self)\n        self.segment = (None, None)\n",
  "        self._leave()\n        self.segment = (None, None)\n        polygon.free_points.add(self)\n        self.poly = polygon\n\n    def _leave(self):\n        old = self.poly\n        if old is not None:\n            old.free_points.discard(self)\n"))
K("P33", PTF, ("        if self.is_free():\n            if self.poly is not None:\n                self.poly.free_points.remove(self)\n            self.poly = None\n            self.segment = (seg, vtx)", "        if not self.is_free():\n            return\n        self.segment = (seg, vtx)\n        home, self.poly = self.poly, None\n        if home is not None:\n            home.free_points.remove(self)"))
K("P33", PTF, ("        for new_seg, side in self.segments():\n            if not new_seg == seg:\n                self.segment = (new_seg, side)\n                return\n", "        for seg_side in self.segments():\n            if seg_side[0] != seg:\n                self.segment = (seg_side[0], seg_side[1])\n                return\n"))
K("P33", DC, ("        for vtx in [out_vtx, in_vtx]:\n            seg.vtxs[vtx].join_segment(seg, vtx)\n", "        points[0].join_segment(seg, 0)\n        points[1].join_segment(seg, 1)\n"))
K("P33", DC, ("        for pt in list(new_polygon.free_points):\n            pt.set_polygon(orig_polygon)\n", "        self._move_points(new_polygon, orig_polygon)\n"), ("    ###################################\n    # Helper change operations.\n", "    def _move_points(self, src, dst):\n        for pt in tuple(src.free_points):\n            pt.set_polygon(dst)\n\n"))
K("P33", DC, ("        for pt in list(orig_poly.free_points):\n            if new_poly.outer_wire.contains_point(pt.xy):\n                pt.set_polygon(new_poly)\n", "        inside = [pt for pt in orig_poly.free_points if new_poly.outer_wire.contains_point(pt.xy)]\n        for pt in inside:\n            pt.set_polygon(new_poly)\n"))
K("P33", DC, ("        seg.vtxs[out_vtx].rm_segment(seg, out_vtx)\n        seg.vtxs[in_vtx].rm_segment(seg, in_vtx)\n        a, b", "        for i, p in enumerate(seg.vtxs):\n            p.rm_segment(seg, i)\n        a, b"))
K("P33", DC, ("        pt = Point(point, poly)\n        self.points.append(pt)\n        poly.free_points.add(pt)\n        return pt\n", "        pt = Point(point, poly)\n        pt.poly.free_points.add(pt)\n        return self.points.append(pt)\n"))

# ---------------------------------------------------------------- P34
B("P34", SG, ("        prev, next, wire = insert_info\n", "        next, prev, wire = insert_info\n"))
B("P34", SG, ("        prev_seg._set_next_side(prev_side, (self, 1 - set_side))\n", ""))
B("P34", SG, ("        prev_seg._set_next_side(prev_side, (self, 1 - set_side))\n", "        prev_seg._set_next_side(prev_side, (self, set_side))\n"))
B("P34", SG, ("        self._set_next_side(set_side, next)\n", "        self._set_next_side(1 - set_side, next)\n"))
B("P34", SG, ("        self.wire[set_side] = wire\n", "        self.wire[1 - set_side] = wire\n"))
B("P34", SG, ("        self.wire[set_side] = wire\n", ""))
B("P34", SG, ("        self._set_next_side(next_side, (self, other_side))\n        self.wire[next_side] = wire\n", "        self._set_next_side(next_side, (self, other_side))\n"))
B("P34", SG, ("        side_prev = 1 - vtx_idx  # prev", "        side_prev = vtx_idx  # prev"))
B("P34", SG, ("        wire = self.wire[side_next]\n", "        wire = self.wire[1 - side_next]\n"))
B("P34", SG, ("        prev_seg, prev_side = self.previous(seg_side_prev)\n        prev_seg.next[prev_side] = self.next[seg_side_next]\n", "        prev_seg, prev_side = self.previous(seg_side_next)\n        prev_seg.next[prev_side] = self.next[seg_side_next]\n"))
B("P34", SG, ("        prev_seg.next[prev_side] = self.next[seg_side_next]\n        self.next[seg_side_next] = (self, seg_side_prev)\n", "        self.next[seg_side_next] = (self, seg_side_prev)\n        prev_seg.next[prev_side] = self.next[seg_side_next]\n"))
B("P34", SG, ("        prev_seg.next[prev_side] = self.next[seg_side_next]\n        self.next[seg_side_next] = (self, seg_side_prev)\n", "        prev_seg.next[prev_side] = self.next[seg_side_next]\n"))
B("P34", SG, ("        prev_seg.next[prev_side] = self.next[seg_side_next]\n        self.next[seg_side_next] = (self, seg_side_prev)\n", "        self.next[seg_side_next] = (self, seg_side_prev)\n"))
B("P34", SG, ("            if wire.segment == (self, side):\n                wire.segment = self.next[side]\n", "            if wire.segment == (self, 1 - side):\n                wire.segment = self.next[side]\n"))
B("P34", SG, ("                if wire.segment[0] == self:\n                    wire.segment = self.next[wire.segment[1]]\n", ""))
B("P34", SG, ("        for side in [left_side, right_side]:\n            wire = self.wire[side]\n            if wire.segment == (self", "        for side in [left_side]:\n            wire = self.wire[side]\n            if wire.segment == (self"))
B("P34", DC, ("        a_insert = a_pt.insert_vector(vec)", "        a_insert = a_pt.insert_vector(-vec)"))
B("P34", DC, ("        b_insert = b_pt.insert_vector(-vec)", "        b_insert = a_pt.insert_vector(-vec)"))
B("P34", DC, ("            return self._wire_add_dendrite((a_pt, b_pt), b_insert, in_vtx)", "            return self._wire_add_dendrite((a_pt, b_pt), b_insert, out_vtx)"))
B("P34", DC, ("        new_seg.connect_vtx(out_vtx, a_insert)\n        new_seg.connect_vtx(in_vtx, b_insert)\n", "        new_seg.connect_vtx(out_vtx, b_insert)\n        new_seg.connect_vtx(in_vtx, a_insert)\n"))
B("P34", DC, ("        new_seg.connect_vtx(out_vtx, a_insert)\n        new_seg.connect_vtx(in_vtx, b_insert)\n", "        new_seg.connect_vtx(out_vtx, a_insert)\n"))
B("P34", DC, ("        seg.connect_vtx(root_idx, r_insert)\n        seg.connect_free_vtx(1 - root_idx, wire)\n", "        seg.connect_vtx(root_idx, r_insert)\n"))
B("P34", DC, ("        new_seg.connect_vtx(in_vtx, (b_prev, b_next, left_wire))", "        new_seg.connect_vtx(in_vtx, (b_next, b_prev, left_wire))"))
B("P34", DC, ("        new_seg.connect_vtx(in_vtx, (b_prev, b_next, left_wire))", "        new_seg.connect_vtx(in_vtx, (a_prev, b_next, left_wire))"))
B("P34", DC, ("            assert seg.wire[side] == orig_wire\n            seg.wire[side] = left_wire\n", "            if seg is not new_seg:\n                seg.wire[1-side] = left_wire\n"))
B("P34", DC, ("            assert seg.wire[side] == orig_wire\n            seg.wire[side] = left_wire\n", "            if not seg.is_dendrite():\n                seg.wire[side] = left_wire\n"))
B("P34", DC, ("start=new_seg.next[left_side], end=(new_seg, left_side))", "start=new_seg.next[right_side], end=(new_seg, right_side))"))
B("P34", DC, ("start=new_seg.next[left_side], end=(new_seg, left_side))", "start=new_seg.next[left_side], end=(new_seg, right_side))"))
B("P34", DC, ("        left_wire.segment = (new_seg, left_side)\n        right_wire.segment = (new_seg, right_side)\n", "        left_wire.segment = (new_seg, left_side)\n"))
B("P34", DC, ("        left_wire.segment = (new_seg, left_side)\n        right_wire.segment = (new_seg, right_side)\n", "        left_wire.segment = (new_seg, right_side)\n        right_wire.segment = (new_seg, left_side)\n"))
B("P34", DC, ("        a_wire.segment = segment.next[b_vtx_prev_side]\n", ""))
B("P34", DC, ("        a_wire.segment = segment.next[b_vtx_prev_side]\n        b_wire.segment = b_next_seg\n", "        a_wire.segment = b_next_seg\n        b_wire.segment = segment.next[b_vtx_prev_side]\n"))
B("P34", DC, ("start=b_next_seg, end=(segment, b_vtx_prev_side))", "start=b_next_seg, end=(segment, b_vtx_next_side))"))
B("P34", DC, ("        segment.disconnect_wires()\n        segment.disconnect_vtx(root_vtx)\n", "        segment.disconnect_vtx(root_vtx)\n        segment.disconnect_wires()\n"))
B("P34", DC, ("        segment.disconnect_wires()\n        segment.disconnect_vtx(root_vtx)\n", "        segment.disconnect_vtx(root_vtx)\n"))
B("P34", DC, ("        segment.disconnect_wires()\n        segment.disconnect_vtx(root_vtx)\n", "        segment.disconnect_wires()\n        segment.disconnect_vtx(tip_vtx)\n"))
B("P34", DC, ("        for seg, side in rm_wire.segments():\n            assert seg.wire[side] == rm_wire\n            seg.wire[side] = keep_wire\n", "        for seg, side in rm_wire.segments():\n            seg.wire[side] = right_wire\n"))
B("P34", DC, ("        for seg, side in rm_wire.segments():\n            assert seg.wire[side] == rm_wire\n            seg.wire[side] = keep_wire\n\n        segment.disconnect_wires()\n        segment.disconnect_vtx(out_vtx)\n        segment.disconnect_vtx(in_vtx)\n", "        segment.disconnect_wires()\n        segment.disconnect_vtx(out_vtx)\n        segment.disconnect_vtx(in_vtx)\n\n        for seg, side in rm_wire.segments():\n            seg.wire[side] = keep_wire\n"))
B("P34", DC, ("            seg.wire[side] = keep_wire\n        new_seg.wire[out_vtx]", "            seg.wire[side] = rm_wire\n        new_seg.wire[out_vtx]"))
B("P34", DC, ("        new_seg.connect_vtx(out_vtx, seg_tip_insert)\n", "        new_seg.connect_vtx(in_vtx, seg_tip_insert)\n"))
B("P34", DC, ("((seg, left_side), (seg, right_side), seg.wire[right_side])", "((seg, right_side), (seg, left_side), seg.wire[right_side])"))
B("P34", DC, ("            new_seg.connect_free_vtx(in_vtx, seg.wire[left_side])\n        else:\n            new_seg.connect_vtx(in_vtx, b_seg_insert)\n", "            new_seg.connect_free_vtx(in_vtx, seg.wire[left_side])\n"))
B("P34", DC, ("        b_seg_insert = seg.vtx_insert_info(in_vtx)\n", "        b_seg_insert = seg.vtx_insert_info(out_vtx)\n"))
B("P34", DC, ("            if wire.segment == (seg1, side):\n", "            if wire.segment == (seg0, side):\n"))
B("P34", DC, ("        b_seg1_insert = seg1.vtx_insert_info(seg1_in_vtx)\n        seg1.disconnect_vtx(seg1_in_vtx)\n", "        seg1.disconnect_vtx(seg1_in_vtx)\n        b_seg1_insert = seg1.vtx_insert_info(seg1_in_vtx)\n"))
B("P34", DC, ("        prev_seg.next[prev_side] = seg0.next[seg_side_next]\n        seg0.next[seg_side_next] = (seg0, seg_side_prev)\n", "        prev_seg.next[prev_side] = seg0.next[seg_side_next]\n        seg0.next[seg_side_prev] = (seg0, seg_side_next)\n"))
K("P34", SG, ("        prev_seg, prev_side = self.previous(seg_side_prev)\n        prev_seg.next[prev_side] = self.next[seg_side_next]\n        self.next[seg_side_next] = (self, seg_side_prev)\n", "        self._bypass(vtx_idx)\n\n    def _bypass(self, end):\n        before, before_side = self.previous(1 - end)\n        after = self.next[end]\n        self.next[end] = (self, 1 - end)\n        before.next[before_side] = after\n"))
K("P34", SG, ("        prev, next, wire = insert_info\n        set_side = vtx_idx\n        self._set_next_side(set_side, next)\n\n        prev_seg, prev_side = prev\n        prev_seg._set_next_side(prev_side, (self, 1 - set_side))\n        self.wire[set_side] = wire\n", "        (prev_seg, prev_side), succ, loop = insert_info\n        self.wire[vtx_idx] = loop\n        prev_seg._set_next_side(prev_side, (self, 1 - vtx_idx))\n        self._set_next_side(vtx_idx, succ)\n"))
K("P34", SG, ("            if wire.segment == (self, side):\n                wire.segment = self.next[side]\n                if wire.segment[0] == self:\n                    wire.segment = self.next[wire.segment[1]]\n", "            if wire.segment != (self, side):\n                continue\n            if True:\n                wire.segment = self.next[side]\n                if wire.segment[0] == self:\n                    wire.segment = self.next[wire.segment[1]]\n"))
K("P34", DC, ("        new_seg.connect_vtx(out_vtx, a_insert)\n        new_seg.connect_vtx(in_vtx, b_insert)\n", "        for vtx, insert in ((out_vtx, a_insert), (in_vtx, b_insert)):\n            new_seg.connect_vtx(vtx, insert)\n"))
K("P34", DC, ("        segment.disconnect_wires()\n        segment.disconnect_vtx(out_vtx)\n        segment.disconnect_vtx(in_vtx)\n\n        # setup", "        self._cut(segment)\n\n        # setup"), ("    ###################################\n    # Helper change", "    def _cut(self, segment):\n        segment.disconnect_wires()\n        for vtx in (out_vtx, in_vtx):\n            segment.disconnect_vtx(vtx)\n\n    ###################################\n    # Helper change"))
K("P34", DC, ("        for seg, side in rm_wire.segments():\n            assert seg.wire[side] == rm_wire\n            seg.wire[side] = keep_wire\n\n", "        self._relabel(rm_wire, keep_wire)\n\n"), ("    ###################################\n    # Helper change", "    @staticmethod\n    def _relabel(old, new):\n        for half in old.segments():\n            seg, side = half\n            seg.wire[side] = new\n\n    ###################################\n    # Helper change"))
K("P34", DC, ("        left_wire.segment = (new_seg, left_side)\n        right_wire.segment = (new_seg, right_side)\n", "        for wire, side in ((right_wire, right_side), (left_wire, left_side)):\n            wire.segment = (new_seg, side)\n"))
K("P34", DC, ("        b_seg_insert = seg.vtx_insert_info(in_vtx)\n", "        info = seg.vtx_insert_info(in_vtx)\n        b_seg_insert = info\n"))

# ---------------------------------------------------------------- P06
PF = "polygons/polygon.py"
B("P06", PF, ("            self.parent.childs.discard(self)\n", "            pass\n"))
B("P06", PF, ("            parent_wire.childs.add(self)\n", "            pass\n"))
B("P06", PF, ("            self.parent.childs.discard(self)\n        self.parent = parent_wire\n        if parent_wire is not None:\n            parent_wire.childs.add(self)\n", "            pass\n        self.parent = parent_wire\n        self.parent.childs.discard(self)\n        parent_wire.childs.add(self)\n"))
B("P06", PF, ("            self.parent.childs.discard(self)\n        self.parent = parent_wire\n", "            pass\n        self.parent = parent_wire\n        if self.parent is not None:\n            self.parent.childs.discard(self)\n"))
B("P06", DC, ("        wire.set_parent(polygon.outer_wire)\n", "        wire.parent = polygon.outer_wire\n"))
B("P06", DC, ("        wire.set_parent(polygon.outer_wire)\n", ""))
B("P06", DC, ("        wire.polygon = polygon\n        wire.set", "        wire.set"))
B("P06", DC, ("        wire.segment = (seg, right_side)\n", ""))
B("P06", DC, ("        wire = self.wires.append(Wire())\n        wire.polygon", "        wire = Wire()\n        wire.polygon"))
B("P06", DC, ("        polygon.outer_wire.childs.remove(wire)\n        self.wires", "        self.wires"))
B("P06", DC, ("        for child in list(rm_wire.childs):\n            child.set_parent(parent_wire)\n", ""))
B("P06", DC, ("        for child in list(rm_wire.childs):\n            child.set_parent(parent_wire)\n", "        for child in rm_wire.childs:\n            child.set_parent(parent_wire)\n"))
B("P06", DC, ("        for child in list(rm_wire.childs):\n            child.set_parent(parent_wire)\n", "        for child in list(keep_wire.childs):\n            child.set_parent(parent_wire)\n"))
B("P06", DC, ("            child.set_parent(parent_wire)\n", "            if child.polygon == polygon:\n                child.set_parent(parent_wire)\n"))
B("P06", DC, ("            child.set_parent(parent_wire)\n", "            child.parent = parent_wire\n"))
B("P06", DC, ("        rm_wire.parent.childs.remove(rm_wire)\n", ""))
B("P06", DC, ("        b_wire.polygon = a_wire.polygon\n", ""))
B("P06", DC, ("            inner_wire.set_parent(outer_wire)\n            # childs of the orig", "            # childs of the orig"))
B("P06", DC, ("            for ch in list(a_wire.childs):\n                ch.set_parent(outer_wire)\n", ""))
B("P06", DC, ("                side_wire.set_parent(inner_wire)\n", ""))
B("P06", DC, ("            b_wire.set_parent(orig_parent)\n            for", "            for"))
B("P06", DC, ("            for wire in list(a_wire.childs):\n                if a_wire.contains_wire(wire):\n                    wire.set_parent(a_wire)\n                else:\n                    wire.set_parent(b_wire)\n", ""))
B("P06", DC, ("        left_wire.polygon = new_poly\n", ""))
B("P06", DC, ("        self.polygons.append(new_poly)\n", ""))
B("P06", DC, ("            left_wire.set_parent(orig_wire.parent)\n", ""))
B("P06", DC, ("            for child in list(orig_wire.childs):\n                child.set_parent(outer_wire)\n", ""))
B("P06", DC, ("            inner_wire.polygon = new_poly\n", ""))
B("P06", DC, ("            new_poly.outer_wire = inner_wire\n", ""))
B("P06", DC, ("                hole_wire.polygon = new_poly\n", ""))
B("P06", DC, ("        for hole_wire in list(orig_poly.outer_wire.childs):", "        for hole_wire in orig_poly.outer_wire.childs:"))
B("P06", DC, ("            child.polygon = orig_polygon\n", ""))
B("P06", DC, ("            child.set_parent(orig_polygon.outer_wire)\n", ""))
B("P06", DC, ("        rm_wire.set_parent(rm_wire)  # disconnect\n", ""))
B("P06", DC, ("        self.wires.remove(rm_wire)\n        self.polygons.remove", "        self.polygons.remove"))

B("P06", PG, ("            wire.set_parent(p.outer_wire)\n", ""))
B("P06", DC, ("                if side_wire == inner_wire:\n                    # dendrite of the inner wire\n                    continue\n", ""))
K("P06", DC, ("                if side_wire == inner_wire:\n                    # dendrite of the inner wire\n                    continue\n                assert inner_wire.contains_wire(side_wire)\n                side_wire.set_parent(inner_wire)\n", "                if side_wire != inner_wire:\n                    assert inner_wire.contains_wire(side_wire)\n                    side_wire.set_parent(inner_wire)\n"))
K("P06", PF, ("        if self.parent is not None:\n            assert self in self.parent.childs or self.parent == self\n            self.parent.childs.discard(self)\n        self.parent = parent_wire\n", "        old, self.parent = self.parent, parent_wire\n        if old is not None:\n            old.childs.discard(self)\n"))
K("P06", DC, ("        for child in list(rm_wire.childs):\n            child.set_parent(parent_wire)\n", "        self._adopt(parent_wire, rm_wire.childs)\n"), ("    ###################################\n    # Helper change", "    @staticmethod\n    def _adopt(parent, childs):\n        for w in tuple(childs):\n            w.set_parent(parent)\n\n    ###################################\n    # Helper change"))
K("P06", DC, ("        for child in list(rm_wire.childs):\n            child.set_parent(parent_wire)\n", "        while rm_wire.childs:\n            child = next(iter(rm_wire.childs))\n            child.set_parent(parent_wire)\n"))
K("P06", DC, ("        new_poly = Polygon(left_wire)\n        new_poly.attr = orig_poly.attr\n        self.polygons.append(new_poly)\n        left_wire.polygon = new_poly\n", "        new_poly = self._new_polygon(left_wire, orig_poly)\n"), ("    ###################################\n    # Helper change", "    def _new_polygon(self, wire, template):\n        poly = self.polygons.append(Polygon(wire))\n        poly.attr = template.attr\n        wire.polygon = poly\n        return poly\n\n    ###################################\n    # Helper change"))
K("P06", DC, ("            for wire in list(a_wire.childs):\n                if a_wire.contains_wire(wire):\n                    wire.set_parent(a_wire)\n                else:\n                    wire.set_parent(b_wire)\n", "            for wire in list(a_wire.childs):\n                wire.set_parent(a_wire if a_wire.contains_wire(wire) else b_wire)\n"))
K("P06", DC, ("            for wire in list(a_wire.childs):\n                if a_wire.contains_wire(wire):\n                    wire.set_parent(a_wire)\n                else:\n                    wire.set_parent(b_wire)\n", "            moved = [w for w in a_wire.childs if not a_wire.contains_wire(w)]\n            for wire in moved:\n                wire.set_parent(b_wire)\n"))
K("P06", DC, ("        rm_wire.set_parent(rm_wire)  # disconnect\n", "        rm_wire.parent.childs.discard(rm_wire)\n"))
K("P06", DC, ("        wire.polygon = polygon\n        wire.set_parent(polygon.outer_wire)\n        seg =", "        outer = polygon.outer_wire\n        wire.set_parent(outer)\n        wire.polygon = polygon\n        seg ="))
B("P06", DC, ("            child.set_parent(orig_polygon.outer_wire)\n            child.polygon = orig_polygon\n", "            child.polygon = orig_polygon\n            child.set_parent(keep_wire)\n"))

# ---------------------------------------------------------------- P07
B("P07", DC, ("        self.last_polygon_change = (PolygonChange.none, None, None)\n        segment = ", "        segment = "))
B("P07", DC, ("        self.last_polygon_change = (PolygonChange.none, None, None)\n        left_self", "        left_self"))
B("P07", DC, ("        self.last_polygon_change = (PolygonChange.none, None, None)\n        segment = self.pt_to_seg.get((a_pt.id, b_pt.id), None)\n        if segment is not None:\n            return segment\n", "        segment = self.pt_to_seg.get((a_pt.id, b_pt.id), None)\n        if segment is not None:\n            return segment\n        self.last_polygon_change = (PolygonChange.none, None, None)\n"))
B("P07", DC, ("(PolygonChange.split, orig_poly, new_poly)", "(PolygonChange.add, orig_poly, new_poly)"))
B("P07", DC, ("(PolygonChange.split, orig_poly, new_poly)", "(PolygonChange.split, new_poly, orig_poly)"))
B("P07", DC, ("(PolygonChange.add, orig_poly, new_poly)", "(PolygonChange.split, orig_poly, new_poly)"))
B("P07", DC, ("(PolygonChange.add, orig_poly, new_poly)", "(PolygonChange.add, outer_wire.parent.polygon, new_poly)"))
B("P07", DC, ("            self.last_polygon_change = (PolygonChange.add, orig_poly, new_poly)\n", ""))
B("P07", DC, ("(PolygonChange.join, orig_polygon, new_polygon)", "(PolygonChange.join, new_polygon, orig_polygon)"))
B("P07", DC, ("(PolygonChange.join, orig_polygon, new_polygon)", "(PolygonChange.remove, orig_polygon, new_polygon)"))
B("P07", DC, ("(PolygonChange.remove, orig_polygon, new_polygon)", "(PolygonChange.remove, left_wire.polygon, right_wire.polygon)"))
B("P07", DC, ("(PolygonChange.remove, orig_polygon, new_polygon)", "(PolygonChange.join, orig_polygon, new_polygon)"))
B("P07", DC, ("                orig_polygon = left_wire.polygon\n                new_polygon = right_wire.polygon\n", "                orig_polygon = right_wire.polygon\n                new_polygon = left_wire.polygon\n"))
B("P07", DC, ("        self._destroy_segment(segment)\n        self.last_polygon_change = (PolygonChange.shape, [polygon], None)\n", "        self._destroy_segment(segment)\n"))
B("P07", DC, ("        self._destroy_segment(segment)\n        self.last_polygon_change = (PolygonChange.shape, [polygon], None)\n", "        self._destroy_segment(segment)\n        self.last_polygon_change = (PolygonChange.shape, [], None)\n"))
B("P07", DC, ("        self.last_polygon_change = (PolygonChange.shape, [polygon], None)\n\n        # set next", "        if polygon.outer_wire in (a_wire, b_wire):\n            self.last_polygon_change = (PolygonChange.shape, [polygon], None)\n\n        # set next"))
B("P07", DC, ("        self.last_polygon_change = (PolygonChange.shape, [polygon], None)\n\n        # set next", "        self.last_polygon_change = (PolygonChange.shape, polygon, None)\n\n        # set next"))
B("P07", DC, ("        self.last_polygon_change = (PolygonChange.shape, [polygon], None)\n        return seg\n", "        return seg\n"))
B("P07", DC, ("        self.last_polygon_change = (PolygonChange.shape, [polygon], None)\n        self._destroy", "        self._destroy"))
B("P07", PG, ("        return (type, id0, id1)", "        return (type, id1, id0)"))

B("P07", PG, ("        id1 = None if p1 is None else p1.id\n", "        id1 = None if p1 is None else p0.id\n"))
K("P07", DC, ("            self.last_polygon_change = (PolygonChange.join, orig_polygon, new_polygon)\n            keep_wire = right_wire\n", "            change = PolygonChange.join\n            keep_wire = right_wire\n"), ("            self.last_polygon_change = (PolygonChange.remove, orig_polygon, new_polygon)\n", "            change = PolygonChange.remove\n        self.last_polygon_change = (change, orig_polygon, new_polygon)\n"))
K("P07", DC, ("        self._destroy_segment(segment)\n        self.last_polygon_change = (PolygonChange.shape, [polygon], None)\n", "        self._report_shape(polygon)\n        self._destroy_segment(segment)\n"), ("    ###################################\n    # Helper change", "    def _report_shape(self, *polys):\n        self.last_polygon_change = (PolygonChange.shape, list(polys), None)\n\n    ###################################\n    # Helper change"))
K("P07", DC, ("        if orig_wire.polygon.outer_wire == orig_wire:\n            # two", "        if orig_wire is orig_poly.outer_wire:\n            # two"))
K("P07", DC, ("        self.last_polygon_change = (PolygonChange.none, None, None)\n        segment = self.pt_to_seg.get((a_pt.id, b_pt.id), None)\n        if segment is not None:\n            return segment\n", "        segment = self.pt_to_seg.get((a_pt.id, b_pt.id), None)\n        self.last_polygon_change = (PolygonChange.none, None, None)\n        if segment is not None:\n            return segment\n"))
K("P07", DC, ("        left_self_ref = segment.next[left_side] == (segment, right_side)\n        right_self_ref = segment.next[right_side] == (segment, left_side)\n", "        def is_tip(side):\n            return segment.next[side] == (segment, 1 - side)\n        left_self_ref, right_self_ref = is_tip(left_side), is_tip(right_side)\n"))
K("P07", PG, ("        id0 = None if p0 is None else p0.id\n        id1 = None if p1 is None else p1.id\n        return (type, id0, id1)", "        ids = [p.id if p is not None else None for p in (p0, p1)]\n        return (type, ids[0], ids[1])"))

# ---------------------------------------------------------------- P09
MGF = "polygons/merge.py"
B("P09", MGF, ("            maps_self[1][seg.id] = maps_self[1].setdefault(prev_seg.id, prev_seg.id)", "            maps_self[1][prev_seg.id] = maps_self[1].setdefault(seg.id, seg.id)"))
B("P09", MGF, ("            maps_self[1][seg.id] = maps_self[1].setdefault(prev_seg.id, prev_seg.id)", "            maps_self[1][seg.id] = prev_seg.id"))
B("P09", MGF, ("        maps_other[0][new_pt.id] = pt.id\n", "        maps_other[0][pt.id] = new_pt.id\n"))
B("P09", MGF, ("        maps_other[0][new_pt.id] = pt.id\n", "        maps_self[0][new_pt.id] = pt.id\n"))
B("P09", MGF, ("        maps_other[0][new_pt.id] = pt.id\n", "        if n_points < len(decomp.points):\n            maps_other[0][new_pt.id] = pt.id\n"))
B("P09", MGF, ("            maps_self[1][seg_b.id] = maps_self[1].get(seg_a.id, seg_a.id)", "            maps_self[1][seg_b.id] = seg_a.id"))
B("P09", MGF, ("            maps_self[1][seg_b.id] = maps_self[1].get(seg_a.id, seg_a.id)", "            maps_self[1][seg_a.id] = maps_self[1].get(seg_b.id, seg_b.id)"))
B("P09", MGF, ("            maps_self[1][seg_b.id] = maps_self[1].get(seg_a.id, seg_a.id)", "            maps_self[1][seg_b.id] = maps_other[1].get(seg_a.id, seg_a.id)"))
B("P09", MGF, ("            maps_self[1][seg_b.id] = maps_self[1].get(seg_a.id, seg_a.id)", "            maps_self[1][seg_b.id] = maps_self[1].get(seg_a.id, None)"))
B("P09", MGF, ("            maps_other[1][new_seg.id] = seg.id\n", "            maps_other[1][seg.id] = new_seg.id\n"))
B("P09", MGF, ("            maps_other[1][new_seg.id] = seg.id\n", "            maps_other[1].setdefault(new_seg.wire[0].id, seg.id)\n"))
B("P09", MGF, ("maps_self[2].get(orig_poly.id, orig_poly.id)", "orig_poly.id"))
B("P09", MGF, ("maps_self[2][new_poly.id] = maps_self[2].get(orig_poly.id, orig_poly.id)", "maps_self[2][orig_poly.id] = maps_self[2].get(new_poly.id, new_poly.id)"))
B("P09", MGF, ("            if change_type == PolygonChange.add or change_type == PolygonChange.split:", "            if change_type == PolygonChange.split:"))
B("P09", MGF, ("                maps_other[2][new_poly.id] = maps_other[2].get(orig_poly.id, None)\n", ""))
B("P09", MGF, ("                maps_other[2][new_poly.id] = maps_other[2].get(orig_poly.id, None)\n", "                maps_other[2][new_poly.id] = maps_self[2].get(orig_poly.id, None)\n"))
B("P09", MGF, ("            if side:\n                r, l", "            if not side:\n                r, l"))
B("P09", MGF, ("            if side:\n                r, l = right_side, left_side\n            else:\n                l, r = right_side, left_side\n", "            r, l = right_side, left_side\n"))
B("P09", MGF, ("[l].polygon.id] = other_left_poly.id", "[l].polygon.id] = other_right_poly.id"))
B("P09", MGF, ("        other_right_poly, other_left_poly = seg.polygons()", "        other_left_poly, other_right_poly = seg.polygons()"))
B("P09", MGF, ("                    ngh_poly = seg.wire[1 - side].polygon", "                    ngh_poly = seg.wire[side].polygon"))
B("P09", MGF, ("                    if maps_other[2][ngh_poly.id] is None:", "                    if maps_other[2][ngh_poly.id] is not None:"))
B("P09", MGF, ("    return (decomp, maps_self, maps_other)\n", "    return (decomp, maps_other, maps_self)\n"))
B("P09", MGF, ("for one_dim_map, common_map in zip(one_decomp_maps, common_maps):", "for one_dim_map, common_map in zip(one_decomp_maps, decomp_maps):"))
B("P09", MGF, ("                        one_dim_map[new_id] = one_dim_map[orig_id]", "                        one_dim_map[new_id] = orig_id"))
B("P09", MGF, ("                    if orig_id in one_dim_map:\n                        assert new_id not in one_dim_map or new_id == orig_id\n", "                    if new_id in one_dim_map:\n"))
B("P09", MGF, ("        all_maps.append(decomp_maps)\n", ""), ("        for one_decomp_maps in all_maps:\n", "        all_maps.append(decomp_maps)\n        for one_decomp_maps in all_maps:\n"))
B("P09", MGF, ("if val is not None}", "if val != 0}"))
B("P09", MGF, ("                     {seg.id: seg.id for seg in common_decomp.segments.values()},\n                     {poly.id: poly.id for poly in  common_decomp.polygons.values()}]]", "                     {poly.id: poly.id for poly in  common_decomp.polygons.values()},\n                     {seg.id: seg.id for seg in common_decomp.segments.values()}]]"))
B("P09", PG, ("                line_division[t1] = (mid_pt, seg, new_seg)", "                line_division[t1] = (mid_pt, new_seg, seg)"))
B("P09", PG, ("            yield (new_seg, self.decomp.last_polygon_change, new_seg.vtxs[out_vtx] == start_pt)\n            start_pt", "            yield (new_seg, self.decomp.last_polygon_change, new_seg.vtxs[in_vtx] == start_pt)\n            start_pt"))
B("P09", SG, ("return (self.wire[right_side].polygon, self.wire[left_side].polygon)", "return (self.wire[left_side].polygon, self.wire[right_side].polygon)"))
K("P09", MGF, ("            if side:\n                r, l = right_side, left_side\n            else:\n                l, r = right_side, left_side\n            maps_other[2][new_seg.wire[r].polygon.id] = other_right_poly.id\n            maps_other[2][new_seg.wire[l].polygon.id] = other_left_poly.id\n",
  "            right, left = (other_right_poly, other_left_poly) if side else (other_left_poly, other_right_poly)\n            maps_other[2][new_seg.wire[left_side].polygon.id] = left.id\n            maps_other[2][new_seg.wire[right_side].polygon.id] = right.id\n"))
K("P09", MGF, ("            maps_self[1][seg_b.id] = maps_self[1].get(seg_a.id, seg_a.id)", "            image = maps_self[1].get(seg_a.id, seg_a.id)\n            maps_self[1][seg_b.id] = image"))
K("P09", MGF, ("                maps_self[2][new_poly.id] = maps_self[2].get(orig_poly.id, orig_poly.id)\n                maps_other[2][new_poly.id] = maps_other[2].get(orig_poly.id, None)\n", "                _inherit(maps_self[2], new_poly, orig_poly, orig_poly.id)\n                _inherit(maps_other[2], new_poly, orig_poly)\n"), ("def intersect_decompositions(", "def _inherit(poly_map, new_poly, orig_poly, default=None):\n    poly_map[new_poly.id] = poly_map.get(orig_poly.id, default)\n\n\ndef intersect_decompositions("))
K("P09", MGF, ("            for one_dim_map, common_map in zip(one_decomp_maps, common_maps):\n                for new_id, orig_id in common_map.items():\n                    if orig_id in one_dim_map:\n", "            for dim in range(3):\n                one_dim_map, common_map = one_decomp_maps[dim], common_maps[dim]\n                for new_id, orig_id in common_map.items():\n                    if orig_id in one_dim_map:\n"))
K("P09", MGF, ("                    if orig_id in one_dim_map:\n                        assert new_id not in one_dim_map or new_id == orig_id\n                        one_dim_map[new_id] = one_dim_map[orig_id]", "                    if orig_id not in one_dim_map:\n                        continue\n                    one_dim_map[new_id] = one_dim_map[orig_id]"))
K("P09", MGF, ("            if change_type == PolygonChange.add or change_type == PolygonChange.split:", "            if change_type in (PolygonChange.add, PolygonChange.split):"))

# ---- P10
PTF = "polygons/point.py"
B("P10", MGF, ("    finally:\n        decomp.tolerance = save_tol\n", "    finally:\n        pass\n"))
B("P10", MGF, ("    try:\n        return _intersect_single(decomp, other)\n    finally:\n        decomp.tolerance = save_tol\n", "    res = _intersect_single(decomp, other)\n    decomp.tolerance = save_tol\n    return res\n"))
B("P10", MGF, ("    save_tol = decomp.tolerance\n    decomp.tolerance = merge_tol\n", "    decomp.tolerance = merge_tol\n    save_tol = decomp.tolerance\n"))
B("P10", MGF, ("    save_tol = decomp.tolerance\n", "    save_tol = other.tolerance\n"))
B("P10", MGF, ("    common_decomp = polygons.PolygonDecomposition()\n    all_maps = []\n    for decomp in decomps:", "    common_decomp = decomps[0]\n    all_maps = []\n    for decomp in decomps[1:]:"))
B("P10", MGF, ("    for pt in other.points.values():\n", "    other.points_lookup.rm_object(0)\n    for pt in other.points.values():\n"))
B("P10", MGF, ("        new_pt = decomp.add_point(pt.xy)\n", "        new_pt = decomp.add_point(pt.xy)\n        pt.xy = new_pt.xy\n"))
B("P10", MGF, ("        new_pt = decomp.add_point(pt.xy)\n", "        new_pt = decomp.add_point(pt.xy)\n        new_pt.xy = pt.xy\n"))
B("P10", MGF, ("intersect_single(common_decomp, decomp, merge_tol)", "intersect_single(common_decomp, decomp)"))
B("P10", MGF, ("    decomp.tolerance = merge_tol\n    try", "    decomp.tolerance = max(merge_tol, save_tol)\n    try"))
B("P10", MGF, ("        other_right_poly, other_left_poly = seg.polygons()\n", "        other_right_poly, other_left_poly = seg.polygons()\n        seg.vtxs.sort(key=lambda p: p.id)\n"))
K("P10", MGF, ("    save_tol = decomp.tolerance\n    decomp.tolerance = merge_tol\n", "    save_tol, decomp.tolerance = decomp.tolerance, merge_tol\n"))
K("P10", MGF, ("    try:\n        return _intersect_single(decomp, other)\n    finally:\n        decomp.tolerance = save_tol\n", "    try:\n        res = _intersect_single(decomp, other)\n    except BaseException:\n        decomp.tolerance = save_tol\n        raise\n    decomp.tolerance = save_tol\n    return res\n"))
K("P10", MGF, ("    save_tol = decomp.tolerance\n    decomp.tolerance = merge_tol\n    try:\n        return _intersect_single(decomp, other)\n    finally:\n        decomp.tolerance = save_tol\n", "    with _with_tolerance(decomp, merge_tol):\n        return _intersect_single(decomp, other)\n\n\nimport contextlib\n\n@contextlib.contextmanager\ndef _with_tolerance(decomp, tol):\n    save_tol = decomp.tolerance\n    decomp.tolerance = tol\n    try:\n        yield\n    finally:\n        decomp.tolerance = save_tol\n"))
K("P10", MGF, ("    for pt in other.points.values():\n        n_points", "    other_points = list(other.points.values())\n    other_points.sort(key=lambda p: p.id)\n    for pt in other_points:\n        n_points"))

# ---- P11
BS = "bspline/bspline.py"
BA = "bspline/bspline_approx.py"
BW = "bspline/brep_writer.py"
HM = "gmsh/heal_mesh.py"
GM = "gmsh/gmsh.py"
IO = "gmsh/gmsh_io.py"
FD = "gmsh/field.py"
OP = "gmsh/options.py"
B("P11", BS, ("        return (self._xy_mat.copy(), self.z_mat.copy())", "        return (self._xy_mat, self.z_mat.copy())"))
B("P11", BW, ("return [ vtx.point.copy() for vtx in self.subshapes()]", "return [ vtx.point for vtx in self.subshapes()]"))
B("P11", BS, ("        poles = self.poles[:, 0:self.dim]\n        return np.array( [np.amin(poles, axis=0), np.amax(poles, axis=0)] )", "        self.poles.sort(axis=0)\n        return np.array( [self.poles[0], self.poles[-1]] )"))
B("P11", BS, ("        z_points = self.z_surface.eval_array(uv_points)\n        if self._have_z_mat:\n            z_points *= self._z_mat[0]\n            z_points += self._z_mat[1]\n        return z_points.reshape(-1)", "        z_points = self.z_surface.eval_array(uv_points)\n        uv_points *= 1.0\n        if self._have_z_mat:\n            z_points *= self._z_mat[0]\n            z_points += self._z_mat[1]\n        return z_points.reshape(-1)"))
B("P11", SG, ("        return self._vector.copy()", "        return self._vector"))
B("P11", AL, ("def make_aabb(points, margin", "def make_aabb_(points, margin"), ("class AABB_Lookup:", "def make_aabb(points, margin=0.0):\n    points.sort(key=lambda p: p[0])\n    return make_aabb_(points, margin)\n\nclass AABB_Lookup:"))

B("P11", HM, ("        return self._face_normals", "        self._face_normals /= 2\n        self.nodes.reverse()\n        return self._face_normals"))

B("P11", BS, ("    def u_basis(self):\n        return self.basis[0]", "    def u_basis(self):\n        self.basis.reverse()\n        return self.basis[1]"))
B("P11", UN, ("        return len(self._redos)\n", "        self._redos.reverse()\n        return len(self._redos)\n"))
K("P11", BS, ("        poles = self.poles[:, 0:self.dim]\n        return np.array( [np.amin(poles, axis=0), np.amax(poles, axis=0)] )", "        poles = self.poles.copy()\n        poles.sort(axis=0)\n        return np.array( [poles[0], poles[-1]] )"))
K("P11", BS, ("        poles = self.poles[:, 0:self.dim]\n        return np.array( [np.amin(poles, axis=0), np.amax(poles, axis=0)] )", "        if getattr(self, '_aabb', None) is None:\n            self._aabb = None\n        if self._aabb is None:\n            self._aabb = np.array( [np.amin(self.poles, axis=0), np.amax(self.poles, axis=0)] )\n        return self._aabb.copy()"))
K("P11", BS, ("        return (self._xy_mat.copy(), self.z_mat.copy())", "        return (np.array(self._xy_mat), np.array(self.z_mat))"))
K("P11", BS, ("        return (self._xy_mat.copy(), self.z_mat.copy())", "        return tuple(m.copy() for m in (self._xy_mat, self.z_mat))"))
K("P11", SG, ("        return self._vector.copy()", "        return 1.0 * self._vector"))

# ---- P12
B("P12", BA, ("    weights[0] = weights[-1] = 1000.0\n", "    weights[0] = weights[-1] = 1000.0\n    points -= points.mean(axis=0)\n"))
B("P12", BA, ("    if len(sample) > 2:\n        axis", "    sample.sort(axis=0)\n    if len(sample) > 2:\n        axis"))
B("P12", BA, ("    assert len(vtxs) == 2\n    vtxs = np.array(vtxs, dtype=float)\n", "    assert len(vtxs) == 2\n    vtxs = np.asarray(vtxs, dtype=float)\n"))
B("P12", BS, ("        full_knots = [ q for q, mult in knots for i in range(mult)  ]\n", "        knots.sort()\n        full_knots = [ q for q, mult in knots for i in range(mult)  ]\n"))
B("P12", BS, ("        knots[-degree - 1:] = knot_range[1]\n", "        knots[-degree - 1:] = knot_range[1]\n        knot_range[0] = knots[0] - 1\n"))
B("P12", BA, ("        self._z_points = points[:, 2]\n", "        self._z_points = points[:, 2]\n        self._z_points -= self._z_points.mean()\n"))

B("P12", GM, ("        self.dim_tags = dim_tags\n", "        self.dim_tags = dim_tags\n        dim_tags.sort()\n"))
B("P12", BW, ("        self.sub_types =  [CompoundSolid, Solid, Shell, Wire, Face, Edge, Vertex]\n        self.shpname = 'Co'\n        super().__init__(shapes)\n", "        self.sub_types =  [CompoundSolid, Solid, Shell, Wire, Face, Edge, Vertex]\n        self.shpname = 'Co'\n        super().__init__(shapes)\n        shapes.clear()\n"))

K("P12", BA, ("    weights[0] = weights[-1] = 1000.0\n", "    weights[0] = weights[-1] = 1000.0\n    points = points - points.mean(axis=0)\n    points += 0\n")) if False else None
K("P12", BA, ("    assert len(vtxs) == 2\n    vtxs = np.array(vtxs, dtype=float)\n", "    assert len(vtxs) == 2\n    vtxs = np.asarray(vtxs, dtype=float).copy()\n"))
K("P12", BS, ("        full_knots = [ q for q, mult in knots for i in range(mult)  ]\n        return cls", "        full_knots = []\n        cls.expand(full_knots, knots)\n        return cls"), ("    def in_domain(self", "    @staticmethod\n    def expand(out, packed):\n        for q, mult in packed:\n            out.extend([q] * mult)\n\n    def in_domain(self"))
K("P12", BA, ("    if len(sample) > 2:\n        axis", "    sample = sample[np.argsort(sample[:, 0])]\n    sample[0] = sample[0]\n    if len(sample) > 2:\n        axis"))
K("P12", BS, ("        full_knots = [ q for q, mult in knots for i in range(mult)  ]\n", "        knots = list(knots)\n        knots.reverse()\n        knots.reverse()\n        full_knots = [ q for q, mult in knots for i in range(mult)  ]\n"))

# ---- P13
B("P13", BS, ("        self.knots = np.array(knots)\n", "        self.knots = np.asarray(knots)\n"))
B("P13", BS, ("        self.poles = np.array(poles, dtype=float)  # N x D", "        self.poles = np.asarray(poles, dtype=float)  # N x D"))
B("P13", BS, ("        self.poles = np.array(poles, dtype=float)\n        self.dim = len(self.poles[0,0,:])", "        self.poles = np.array(poles, dtype=float, copy=False)\n        self.dim = len(self.poles[0,0,:])"))
B("P13", BS, ("        xy_quad = np.array(xy_quad, dtype=float)\n", "        xy_quad = np.asarray(xy_quad, dtype=float)\n"))
B("P13", BW, ("        self.point=np.array(point)", "        self.point=np.asarray(point)"))
B("P13", BW, ("        self.point=np.array(point)", "        self.point=point"))
B("P13", BS, ("            self._weights = self.poles[:, self.dim]\n            self._poles = (self.poles[:, 0:self.dim].T * self._weights ).T", "            self._weights = poles[:, self.dim]\n            self._poles = (self.poles[:, 0:self.dim].T * self._weights ).T"))
B("P13", BS, ("            self._weights = self.poles[:, self.dim]\n            self._poles = (self.poles[:, 0:self.dim].T * self._weights ).T", "            self._weights = np.array(poles[:, self.dim])\n            self._poles = (self.poles[:, 0:self.dim].T * self._weights ).T"))
B("P13", BS, ("        poles_z = points[:, 2].reshape(nu, nv, 1)\n", "        poles_z = points[:, 2].reshape(nu, nv, 1)\n        self._z_points = points[:, 2]\n"))
B("P13", BS, ("            xy_mat = np.array(xy_mat)\n", "            xy_mat = np.asarray(xy_mat)\n"))
K("P13", BS, ("        self.knots = np.array(knots)\n", "        self.knots = np.asarray(knots).copy()\n"))
K("P13", BS, ("        self.knots = np.array(knots)\n", "        knots = np.asarray(knots)\n        self.knots = 1.0 * knots\n"))
K("P13", BS, ("        self.poles = np.array(poles, dtype=float)  # N x D", "        self.poles = np.asarray(poles).astype(float)  # N x D"))
K("P13", BW, ("        self.point=np.array(point)", "        self._set_point(point)"), ("    def attach_to_surface(self", "    def _set_point(self, p):\n        self.point = np.array([float(x) for x in p])\n\n    def attach_to_surface(self"))

# ---- P14
DFS2 = "                repr[2]._dfs(groups) #curve\n                repr[3]._dfs(groups) #surface\n                repr[4]._dfs(groups) #location\n            elif repr[0]==self.Repr.Curve3d:\n                repr[2]._dfs(groups) #curve\n                repr[3]._dfs(groups) #location\n\n    def _sub"
B("P14", BW, ("            sub_ref.location._dfs(groups)\n", ""))
B("P14", BW, ("            repr._dfs(groups)\n            loc._dfs(groups)\n", "            repr._dfs(groups)\n"))
B("P14", BW, ("            sub_ref.location._dfs(groups)\n            sub_ref.shape._dfs(groups)\n        groups['shapes'].append(self)\n        self.id = len(groups['shapes'])", "            sub_ref.location._dfs(groups)\n        groups['shapes'].append(self)\n        self.id = len(groups['shapes'])\n        for sub_ref in self.childs:\n            sub_ref.shape._dfs(groups)"))
B("P14", BW, ("            for edge in wire.subshapes():\n                edge._dfs(groups)\n", "            pass\n"), )
B("P14", BW, ("        Shape._dfs(self,groups)\n        if not self.repr:\n            self.implicit_curve()", "        if id(self) in groups['numbered']:\n            return\n        Shape._dfs(self,groups)\n        if not self.repr:\n            self.implicit_curve()"))
B("P14", BW, ("n_shapes = len(groups['shapes']) + 1", "n_shapes = len(groups['shapes'])"))
B("P14", BW, ("        shape.id = n_shapes - shape.id\n", "        shape.id = shape.id\n"))
B("P14", BW, ("for curve in groups['curves_2d']:", "for curve in groups['curves_3d']:"))
B("P14", BW, ('"Curves {}\\n".format(len(groups[\'curves_3d\']))', '"Curves {}\\n".format(len(groups[\'curves_2d\']))'))
B("P14", BW, ("            groups['curves_2d'].append(self)\n            self.id = len(groups['curves_2d'])", "            self.id = len(groups['curves_2d'])\n            groups['curves_2d'].append(self)"))
B("P14", BW, ("            groups['surfaces'].append(self)\n            self.id = len(groups['surfaces'])", "            groups['surfaces'].append(self)\n            self.id = len(groups['shapes'])"))
B("P14", BW, ("self.Nu, self.Nv, len(u_knots), len(v_knots)", "self.Nv, self.Nu, len(u_knots), len(v_knots)"))
B("P14", BW, ("self.Nu, self.Nv, len(u_knots), len(v_knots)", "self.Nu, self.Nv, len(v_knots), len(u_knots)"))
B("P14", BW, ("        self.Nv = len(poles[0])", "        self.Nv = len(poles)"))
B("P14", BW, ("(curve.id, surface.id, location.id,t_range[0]", "(surface.id, curve.id, location.id,t_range[0]"))
B("P14", BW, ("(curve.id, location.id, t_range[0], t_range[1])", "(curve.id, location.id, t_range[1], t_range[0])"))
B("P14", BW, ("self.shape.id, self.location.id))\n\n    def __repr__", "self.location.id, self.shape.id))\n\n    def __repr__"))
B("P14", BW, ('"\\n+1 {}".format(location.id)', '"\\n+1 0"'))
B("P14", BW, ("        location._dfs(groups)\n        # print(groups)", "        # print(groups)"))
B("P14", BW, ("        for location,power in self.location_powers:\n            location._dfs(groups)\n        Location._dfs(self, groups)", "        Location._dfs(self, groups)\n        for location,power in self.location_powers:\n            location._dfs(groups)"))
B("P14", BW, ("['+', '-', 'i', 'e']", "['-', '+', 'i', 'e']"))
B("P14", BW, ("surf.id,loc.id))", "loc.id,surf.id))"))
B("P14", BW, ("    for loc in groups['locations']:\n", "    for loc in groups['locations'][1:]:\n"))
K("P14", BW, ("            groups['curves_2d'].append(self)\n            self.id = len(groups['curves_2d'])", "            self.id = len(groups['curves_2d']) + 1\n            groups['curves_2d'].append(self)"))
K("P14", BW, ("    for curve in groups['curves_2d']:\n        curve._brep_output(stream, groups)\n", "    _records(stream, groups, 'curves_2d')\n"), ("def write_model(", "def _records(stream, groups, name):\n    for obj in groups[name]:\n        obj._brep_output(stream, groups)\n\ndef write_model("))
K("P14", BW, ("        for sub_ref in self.childs:\n            sub_ref.location._dfs(groups)\n            sub_ref.shape._dfs(groups)\n", "        for sub_ref in self.childs:\n            sub_ref.location._dfs(groups)\n        for sub in self.subshapes():\n            sub._dfs(groups)\n"))
K("P14", BW, ("        shape.id = n_shapes - shape.id\n", "        shape.id = 1 + len(groups['shapes']) - shape.id\n"))
K("P14", BW, ("        for i in self.degree: #prints <B-spline surface u degree> <_>  <B-spline surface v degree>\n            stream.write(\" {}\".format(i))\n", "        stream.write(f\" {self.degree[0]} {self.degree[1]}\")\n"))
K("P14", BW, ("                curve_type, t_range, curve, surface, location = repr\n                stream.write(\"2 {} {} {} {} {}\\n\".format(curve.id, surface.id, location.id,t_range[0],t_range[1] ))", "                _, (t0, t1), curve, surface, location = repr\n                stream.write(f\"2 {curve.id} {surface.id} {location.id} {t0} {t1}\\n\")"))
K("P14", BW, ("        if id(self) in groups['numbered']:\n            return\n        groups['numbered'].add(id(self))\n        for sub_ref in self.childs:\n            sub_ref.location._dfs(groups)\n            sub_ref.shape._dfs(groups)\n        groups['shapes'].append(self)\n        self.id = len(groups['shapes'])", "        if id(self) not in groups['numbered']:\n            groups['numbered'].add(id(self))\n            for sub_ref in self.childs:\n                sub_ref.shape._dfs(groups)\n                sub_ref.location._dfs(groups)\n            groups['shapes'].append(self)\n            self.id = len(groups['shapes'])"))
K("P14", BW, ("    for shape in groups['shapes']:\n        shape.id = n_shapes - shape.id\n", "    for i, shape in enumerate(groups['shapes']):\n        shape.id = len(groups['shapes']) - i\n"))
K("P14", BW, ("            groups['surfaces'].append(self)\n            self.id = len(groups['surfaces'])", "            self._register(groups['surfaces'])\n\n    def _register(self, section):\n        section.append(self)\n        self.id = len(section)"))

# ---- P15
B("P15", BW, ("        if id(self) in groups['numbered']:\n            return\n        groups['numbered'].add(id(self))\n        for sub_ref", "        if hasattr(self, 'id'):\n            return\n        for sub_ref"))
B("P15", BW, ("        if id(self) not in groups['numbered']:\n            groups['numbered'].add(id(self))\n            groups['curves_3d']", "        if not hasattr(self, 'id'):\n            groups['curves_3d']"))
B("P15", BW, ("        if getattr(self, 'id', None) == 0:\n            return      # identity\n", "        if getattr(self, 'id', None) is not None:\n            return\n"))
B("P15", BW, ("            groups['numbered'].add(id(self))\n            groups['surfaces'].append(self)", "            groups['surfaces'].append(self)"))
B("P15", BW, ("        if not self.repr:\n            self.implicit_curve()", "        self.implicit_curve()"))
B("P15", BW, ("        if not self.repr:\n            self.implicit_surface()", "        self.implicit_surface()"))
B("P15", BW, ("        if id(self) not in groups['numbered']:\n            groups['numbered'].add(id(self))\n            groups['surfaces']", "        if getattr(self, 'id', 0) > len(groups['surfaces']) or id(self) not in groups['numbered']:\n            groups['numbered'].add(id(self))\n            groups['surfaces']"))
B("P15", BW, ("    def index_all(self, location=Location()):\n", "    def index_all(self, location=Location(), groups=dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[], numbered=set())):\n"), ("        groups = dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[], numbered=set())\n        self", "        self"))
K("P15", BW, ("        if id(self) not in groups['numbered']:\n            groups['numbered'].add(id(self))\n            groups['surfaces']", "        if not any(s is self for s in groups['surfaces']):\n            groups['surfaces']"))
K("P15", BW, ("        if id(self) not in groups['numbered']:\n            groups['numbered'].add(id(self))\n            groups['curves_3d'].append(self)\n            self.id = len(groups['curves_3d'])", "        if id(self) in groups['numbered']:\n            return\n        groups['curves_3d'].append(self)\n        groups['numbered'].add(id(self))\n        self.id = len(groups['curves_3d'])"))
K("P15", BW, ("            groups['surfaces'].append(self)\n            self.id = len(groups['surfaces'])", "            self._register(groups['surfaces'])\n\n    def _register(self, section):\n        section.append(self)\n        self.id = len(section)"))

# ---- P18
B("P18", BS, ("        z = self._z_mat[0] * z + self._z_mat[1]\n", ""))
B("P18", BS, ("        z = self._z_mat[0] * z + self._z_mat[1]\n", "        z = self._z_mat[0] * (z + self._z_mat[1])\n"))
B("P18", BS, ("        z = self._z_mat[0] * z + self._z_mat[1]\n", "        z = self.z_mat[0] * z + self.z_mat[1]\n"))
B("P18", BS, ("        if self._have_z_mat:\n            z_points *= self._z_mat[0]\n            z_points += self._z_mat[1]\n        return z_points.reshape", "        if self._have_z_mat:\n            z_points += self._z_mat[1]\n            z_points *= self._z_mat[0]\n        return z_points.reshape"))
B("P18", BS, ("        return self.z_eval_array(uv_points)\n\n\n    def center", "        z = self.z_eval_array(uv_points)\n        if self._have_z_mat:\n            z = self._z_mat[0] * z + self._z_mat[1]\n        return z\n\n\n    def center"))
B("P18", BS, ("np.sort(self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1])", "self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1]"))
B("P18", BS, ("np.sort(self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1])", "self._z_mat[0] * np.sort(self.z_surface.aabb()[:, 0]) + self._z_mat[1]"))
B("P18", BS, ("np.sort(self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1])", "np.sort(self.z_mat[0] * self.z_surface.aabb()[:, 0] + self.z_mat[1])"))
B("P18", BS, ("            z_poles *= self._z_mat[0]\n            z_poles += self._z_mat[1]\n", "            z_poles *= self._z_mat[0]\n            z_poles += self.z_mat[1]\n"))
B("P18", BS, ("            self._reset_transform_z()\n            surf_center = self.center()\n            z_mat = np.array(z_mat)", "            surf_center = self.center()\n            self._reset_transform_z()\n            z_mat = np.array(z_mat)"))
B("P18", BS, ("            self._z_mat[1] = z_mat[1] + (1 - self._z_mat[0]) * z_center\n            self._have_z_mat = True", "            self._z_mat[1] = z_mat[1] + (1 - self._z_mat[0]) * z_center\n            self._have_z_mat = not np.isclose(z_mat[0], 1.0)"))
B("P18", BS, ("z_mat[1] + (1 - self._z_mat[0]) * z_center", "z_mat[1] + (self._z_mat[0] - 1) * z_center"))
B("P18", BS, ("result[i] = self.z_surface._z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface._z_mat[1]", "result[i] = u_loc.dot(Z_mat).dot(v_loc)"))
B("P18", BS, ("result[i] = self.z_surface._z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface._z_mat[1]", "result[i] = self.z_surface._z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc) + self.z_surface._z_mat[1])"))
B("P18", BS, ("result[i] = self.z_surface._z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface._z_mat[1]", "result[i] = u_loc.dot(Z_mat).dot(v_loc)\n        if self.z_surface._have_z_mat:\n            result = self.z_surface.z_mat[0] * result + self.z_surface.z_mat[1]"))
B("P18", BS, ("        uv_points  = self.xy_to_uv(xy_points)\n        return self.eval_array(uv_points)", "        uv_points  = self.xy_to_uv(xy_points)\n        return self.eval_array(xy_points)"))
B("P18", BS, ("        xyz[:, 2] *= self.z_scale\n", "        xyz[:, 2] *= self.z_surface._z_mat[0]\n"))
K("P18", BS, ("        z = self._z_mat[0] * z + self._z_mat[1]\n", "        scale, shift = self._z_mat\n        z = shift + z * scale\n"))
K("P18", BS, ("        if self._have_z_mat:\n            z_points *= self._z_mat[0]\n            z_points += self._z_mat[1]\n        return z_points.reshape", "        if self._have_z_mat:\n            z_points = z_points * self._z_mat[0] + self._z_mat[1]\n        return z_points.reshape"))
K("P18", BS, ("        if self._have_z_mat:\n            z_points *= self._z_mat[0]\n            z_points += self._z_mat[1]\n        return z_points.reshape", "        return self._apply_z(z_points).reshape"), ("    def center(self):\n        \"\"\"\n        Evaluate surface", "    def _apply_z(self, z_points):\n        if not self._have_z_mat:\n            return z_points\n        return self._z_mat[0] * z_points + self._z_mat[1]\n\n    def center(self):\n        \"\"\"\n        Evaluate surface"))
K("P18", BS, ("        return self.z_eval_array(uv_points)\n\n\n    def center", "        return self.eval_array(uv_points)[:, 2]\n\n\n    def center"))
K("P18", BS, ("        xyz_box[:, 2] = np.sort(self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1])\n", "        z_box = self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1]\n        xyz_box[0, 2] = z_box.min()\n        xyz_box[1, 2] = z_box.max()\n"))
K("P18", BS, ("        xyz_box[:, 2] = np.sort(self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1])\n", "        z_box = self.z_surface.aabb()[:, 0] * self._z_mat[0]\n        z_box += self._z_mat[1]\n        z_box.sort()\n        xyz_box[:, 2] = z_box\n"))
K("P18", BS, ("            self._z_mat[0] = z_mat[0]\n            z_center = surf_center[2]\n            self._z_mat[1] = z_mat[1] + (1 - self._z_mat[0]) * z_center\n", "            z_center = surf_center[2]\n            scale, shift = z_mat\n            self._z_mat = np.array([scale, shift + z_center - scale * z_center])\n"))
K("P18", BS, ("result[i] = self.z_surface._z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface._z_mat[1]", "result[i] = u_loc.dot(Z_mat).dot(v_loc)\n        result = self.z_surface._z_mat[0] * result + self.z_surface._z_mat[1]"))
K("P18", BS, ("result[i] = self.z_surface._z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface._z_mat[1]", "z_scale, z_shift = self.z_surface._z_mat\n            result[i] = z_scale * (u_loc @ Z_mat @ v_loc) + z_shift"))
K("P18", BS, ("        self.z_mat = self._z_mat = np.array([1.0, 0.0])\n", "        self._z_mat = np.array([1.0, 0.0])\n        self.z_mat = self._z_mat\n"))

# ---- P19
B("P19", BS, ("        t = self.basis.check(t)\n        it = self.basis.find_knot_interval(t)\n", "        it = self.basis.find_knot_interval(self.basis.check(t))\n"))
B("P19", BS, ("        t = self.basis.check(t)\n        it = self.basis.find_knot_interval(t)\n", "        it = self.basis.find_knot_interval(t)\n        t = self.basis.check(t)\n"))
B("P19", BS, ("        v = self.v_basis.check(v)\n", "        v = self.u_basis.check(v)\n"))
B("P19", BS, ("        v = self.v_basis.check(v)\n", ""))
B("P19", BS, ("        iv = self.v_basis.find_knot_interval(v)\n        return self.eval_local(u, v, iu, iv)", "        iv = self.v_basis.find_knot_interval(u)\n        return self.eval_local(u, v, iu, iv)"))
B("P19", BS, ("        return self.eval_local(u, v, iu, iv)", "        return self.eval_local(u, v, iv, iu)"))
B("P19", BS, ("        return np.array([self.eval(u, v) for u, v in uv_points])", "        return np.array([self.eval_local(u, v, self.u_basis.find_knot_interval(u), self.v_basis.find_knot_interval(v)) for u, v in uv_points])"))
B("P19", BS, ("        return np.array([self.eval(u, v) for u, v in uv_points])", "        iu = [self.u_basis.find_knot_interval(u) for u in uv_points[:, 0]]\n        return np.array([self.eval_local(self.u_basis.check(u), self.v_basis.check(v), self.u_basis.find_knot_interval(self.u_basis.check(v)), self.v_basis.find_knot_interval(self.v_basis.check(v))) for u, v in uv_points])"))
B("P19", BS, ("            top_value = np.inner(u_base_vec, self._poles[iu: iu + du, iv: iv + dv, :].T)", "            top_value = np.inner(u_base_vec, self._poles[iu: iu + du, iv: iv + du, :].T)"))
B("P19", BS, ("            bot_value = np.inner(u_base_vec, self._weights[iu: iu + du, iv: iv + dv].T)", "            bot_value = np.inner(u_base_vec, self._weights[iv: iv + du, iu: iu + dv].T)"))
B("P19", BS, ("            if t < self.domain[0]:\n                return self.domain[0]", "            if t > self.domain[0]:\n                return self.domain[0]"))
B("P19", BS, ("            if t < self.domain[0]:\n                return self.domain[0]\n            else:\n                return self.domain[1]", "            return t"))
B("P19", BS, ("            if not self.domain[0] - tol <= t <= self.domain[1] + tol:", "            if not self.domain[0] - tol <= t:"))
B("P19", BS, ("            if not self.domain[0] - tol <= t <= self.domain[1] + tol:", "            if not self.domain[0] + tol <= t <= self.domain[1] - tol:"))
B("P19", BS, ("            if not self.domain[0] - tol <= t <= self.domain[1] + tol:", "            if t < self.domain[0] - tol and t > self.domain[1] + tol:"))
B("P19", BS, ("        if self.domain[0] <= t <= self.domain[1]:\n            return t\n", "        if self.domain[0] < t <= self.domain[1]:\n            return t\n"))
B("P19", BS, ("        if self.domain[0] <= t <= self.domain[1]:\n            return t\n", "        if self.domain[0] <= t:\n            return t\n"))
B("P19", BS, ("            if not self.domain[0] - tol <= t <= self.domain[1] + tol:\n                raise IndexError(\"Evaluate spline, t={}, out of domain: {}.\".format(t, self.domain))\n", ""))
B("P19", BS, ("[t], side='right')[0] - 1", "[t], side='left')[0] - 1"))
B("P19", BS, ("self.knots[self.degree: -self.degree -1], [t], side='right')[0] - 1", "self.knots[self.degree: -self.degree -1], [t], side='right')[0]"))
B("P19", BS, ("self.knots[self.degree: -self.degree -1], [t]", "self.knots[self.degree + 1: -self.degree -1], [t]"))
B("P19", BS, ("self.knots[self.degree: -self.degree -1], [t]", "self.knots[self.degree: -self.degree], [t]"), ("        return min(idx, self.n_intervals - 1)", "        return idx"))
B("P19", BA, ("            iv = self._v_basis.find_knot_interval(v)\n", "            iv = self._v_basis.find_knot_interval(u)\n"))
B("P19", BA, ("            iv = self._v_basis.find_knot_interval(v)\n", "            iv = self._u_basis.find_knot_interval(v)\n"))
K("P19", BS, ("        u = self.u_basis.check(u)\n        v = self.v_basis.check(v)\n        iu = self.u_basis.find_knot_interval(u)\n        iv = self.v_basis.find_knot_interval(v)\n        return self.eval_local(u, v, iu, iv)", "        (u, iu), (v, iv) = [self._locate(b, t) for b, t in zip(self.basis, (u, v))]\n        return self.eval_local(u, v, iu, iv)\n\n    def _locate(self, basis, t):\n        t = basis.check(t)\n        return t, basis.find_knot_interval(t)"))
K("P19", BS, ("        u = self.u_basis.check(u)\n        v = self.v_basis.check(v)\n        iu = self.u_basis.find_knot_interval(u)\n        iv = self.v_basis.find_knot_interval(v)\n        return self.eval_local(u, v, iu, iv)", "        u_basis, v_basis = self.basis\n        v = v_basis.check(v)\n        iv = v_basis.find_knot_interval(v)\n        u = u_basis.check(u)\n        return self.eval_local(u, v, iu=u_basis.find_knot_interval(u), iv=iv)"))
K("P19", BS, ("        return np.array([self.eval(u, v) for u, v in uv_points])", "        values = []\n        for uv in uv_points:\n            values.append(self.eval(uv[0], uv[1]))\n        return np.array(values)"))
K("P19", BS, ("        if self.domain[0] <= t <= self.domain[1]:\n            return t\n        else:\n            tol", "        t_min, t_max = self.domain\n        if t_min <= t and t <= t_max:\n            return t\n        else:\n            tol"), ("            if t < self.domain[0]:\n                return self.domain[0]\n            else:\n                return self.domain[1]\n", "            return t_min if t < t_min else t_max\n"))
K("P19", BS, ("            if not self.domain[0] - tol <= t <= self.domain[1] + tol:", "            if t < self.domain[0] - tol or t > self.domain[1] + tol:"), ("            if t < self.domain[0]:\n                return self.domain[0]\n            else:\n                return self.domain[1]\n", "            if t > self.domain[1]:\n                return self.domain[1]\n            return self.domain[0]\n"))
K("P19", BS, ("            if t < self.domain[0]:\n                return self.domain[0]\n            else:\n                return self.domain[1]\n", "            return np.clip(t, self.domain[0], self.domain[1])\n"))
K("P19", BS, ("        if self.domain[0] <= t <= self.domain[1]:\n            return t\n        else:\n            tol", "        if self.in_domain(t):\n            return t\n        else:\n            tol"))
K("P19", BS, ("self.knots[self.degree: -self.degree -1], [t], side='right')[0] - 1", "self.knots, [t], side='right')[0] - 1 - self.degree"))
K("P19", BS, ("        idx = np.searchsorted(self.knots[self.degree: -self.degree -1], [t], side='right')[0] - 1", "        inner = self.knots[self.degree: -self.degree - 1]\n        idx = int(inner.searchsorted(t, side='right')) - 1"))
K("P19", BS, ("            top_value = np.inner(u_base_vec, self._poles[iu: iu + du, iv: iv + dv, :].T)", "            top_value = np.inner(u_base_vec, self._poles[iu: iu + self.u_basis.degree + 1, iv: dv + iv].T)"))

# baking
B("P18", BS, ("            self.z_surface = Surface(z_surface.basis, poles, z_surface.rational)\n            self._reset_transform_z()", "            self.z_surface = Surface(z_surface.basis, poles, z_surface.rational)\n            self._have_z_mat = False"))
B("P18", BS, ("            self.z_surface = Surface(z_surface.basis, poles, z_surface.rational)\n            self._reset_transform_z()", "            self.z_surface = Surface(z_surface.basis, poles, z_surface.rational)"))
B("P18", BS, ("            z_surface = self.z_surface.deep_copy()\n", "            z_surface = self.z_surface\n"))
B("P18", BS, ("            poles[:, :, 0] += self._z_mat[1]\n", "            poles[:, :, 0] += self.z_mat[1]\n"))
B("P18", BS, ("            poles[:, :, 0] *= self._z_mat[0]\n            poles[:, :, 0] += self._z_mat[1]\n", "            poles[:, :, 0] += self._z_mat[1]\n            poles[:, :, 0] *= self._z_mat[0]\n"))
K("P18", BS, ("            poles[:, :, 0] *= self._z_mat[0]\n            poles[:, :, 0] += self._z_mat[1]\n", "            scale, shift = self._z_mat\n            poles[:, :, 0] = scale * poles[:, :, 0] + shift\n"))
K("P18", BS, ("            z_surface = self.z_surface.deep_copy()\n            poles = z_surface.poles\n", "            z_surface = self.z_surface\n            poles = z_surface.poles.copy()\n"))
K("P18", BS, ("            self.z_surface = Surface(z_surface.basis, poles, z_surface.rational)\n", "            self.z_surface = Surface((self.u_basis, self.v_basis), poles, rational=z_surface.rational)\n"))

# ---- P17
B("P17", BS, ("        return Surface( ( u_basis, v_basis), poles, self.rational)", "        return Surface( ( u_basis, v_basis), poles)"))
B("P17", BS, ("        return Surface( ( u_basis, v_basis), poles, self.rational)", "        return Surface( ( v_basis, u_basis), poles, self.rational)"))
B("P17", BS, ("        v_basis = copy.copy(self.v_basis)\n", "        v_basis = u_basis\n"))
B("P17", BS, ("        v_basis = copy.copy(self.v_basis)\n", "        v_basis = SplineBasis.make_equidistant(self.v_basis.degree, self.v_basis.n_intervals)\n        v_basis = copy.copy(v_basis)\n"))
B("P17", BS, ("        surf._z_mat = self._z_mat.copy()\n", ""))
B("P17", BS, ("        surf._z_mat = self._z_mat.copy()\n", "        surf._z_mat = self._z_mat\n"))
B("P17", BS, ("        surf._z_mat = self._z_mat.copy()\n", "        surf._z_mat = self.z_mat.copy()\n"))
B("P17", BS, ("        surf._set_xy_map(self._linear_xy_map)\n", ""))
B("P17", BS, ("        surf._set_xy_map(self._linear_xy_map)\n", "        self._set_xy_map(self._linear_xy_map)\n"))
B("P17", BS, ("            self.z_surface = Surface(z_surface.basis, poles, z_surface.rational)\n", "            self.z_surface = Surface(z_surface.basis, poles)\n"))
B("P17", BS, ("        z_poles = self.z_surface.poles.copy()\n", "        z_poles = self.z_surface.poles\n"))
B("P17", BW, ("    c = curve_dim(curve.poles, curve.basis.pack_knots(), curve.rational, curve.basis.degree)", "    c = curve_dim(curve.poles, curve.basis.pack_knots(), degree=curve.basis.degree)"))
B("P17", BW, ("    c = curve_dim(curve.poles, curve.basis.pack_knots(), curve.rational, curve.basis.degree)", "    c = curve_dim(curve.poles, curve.basis.pack_knots(), curve.rational)"))
B("P17", BW, ("surf.rational, (surf.u_basis.degree, surf.v_basis.degree) )", "surf.rational, (surf.v_basis.degree, surf.u_basis.degree) )"))
B("P17", BW, ("surf.rational, (surf.u_basis.degree, surf.v_basis.degree) )", "surf.rational)"))
B("P17", BW, ("(surf.u_basis.pack_knots(), surf.v_basis.pack_knots())", "(surf.u_basis.pack_knots(), surf.u_basis.pack_knots())"))
B("P17", "gmsh/gmsh.py", ("        return ObjectSet(self.factory, copy_tags, self.regions)\n\n    def get_boundary", "        return ObjectSet(self.factory, copy_tags, [Region.default_region[3]])\n\n    def get_boundary"))
B("P17", "gmsh/gmsh.py", ("        self.regions = [region.complete(dim) for dim, tag in self.dim_tags]\n        return self", "        for i, (dim, tag) in enumerate(self.dim_tags):\n            self.regions[i] = region.complete(dim)\n        return self"))
K("P17", BS, ("        u_basis = copy.copy(self.u_basis)\n        v_basis = copy.copy(self.v_basis)\n        poles = copy.copy(self.poles)\n        return Surface( ( u_basis, v_basis), poles, self.rational)", "        basis = [copy.copy(b) for b in self.basis]\n        return Surface(basis, self.poles.copy(), rational=self.rational)"))
K("P17", BS, ("        u_basis = copy.copy(self.u_basis)\n        v_basis = copy.copy(self.v_basis)\n        poles = copy.copy(self.poles)\n        return Surface( ( u_basis, v_basis), poles, self.rational)", "        u_basis, v_basis = (SplineBasis(b.degree, b.knots) for b in self.basis)\n        return Surface((u_basis, v_basis), np.array(self.poles), self.rational)"))
K("P17", BS, ("        surf._set_xy_map(self._linear_xy_map)\n", "        if self._linear_xy_map:\n            surf.xy_to_uv = surf._linear_xy_to_uv\n            surf.uv_to_xy = surf._linear_uv_to_xy\n        else:\n            surf.xy_to_uv = surf._bilinear_xy_to_uv\n            surf.uv_to_xy = surf._bilinear_uv_to_xy\n"))
K("P17", BS, ("        surf._set_xy_map(self._linear_xy_map)\n", "        surf._set_xy_map(surf._linear_xy_map)\n"), ("        surf._z_mat = self._z_mat.copy()\n", "        surf._z_mat = np.array(surf._z_mat)\n"))
K("P17", BW, ("    c = curve_dim(curve.poles, curve.basis.pack_knots(), curve.rational, curve.basis.degree)", "    basis = curve.basis\n    c = curve_dim(curve.poles, knots=basis.pack_knots(), degree=basis.degree, rational=curve.rational)"))
K("P17", BW, ("    s = Surface(surf.poles, (surf.u_basis.pack_knots(), surf.v_basis.pack_knots()),\n                   surf.rational, (surf.u_basis.degree, surf.v_basis.degree) )", "    knots = tuple(b.pack_knots() for b in surf.basis)\n    degree = tuple(b.degree for b in surf.basis)\n    s = Surface(surf.poles, knots, surf.rational, degree)"))
K("P17", "gmsh/gmsh.py", ("        return ObjectSet(self.factory, copy_tags, self.regions)\n\n    def get_boundary", "        return ObjectSet(self.factory, copy_tags, list(self.regions))\n\n    def get_boundary"))

# ---- P23
GM = "gmsh/gmsh.py"
B("P23", GM, ("        box_tag = self.model.addBox(*corner, *sides)\n        self._need_synchronize = True\n", "        box_tag = self.model.addBox(*corner, *sides)\n"))
B("P23", GM, ("        copy_tags = self.factory.model.copy(self.dim_tags)\n        self.factory._need_synchronize = True\n", "        copy_tags = self.factory.model.copy(self.dim_tags)\n"))
B("P23", GM, ("            self.model.synchronize()\n            self._need_synchronize = False\n", "            self._need_synchronize = False\n"))
B("P23", GM, ("        if self._need_synchronize:\n            self.model", "        if not self._need_synchronize:\n            self.model"))
B("P23", GM, ("            self.keep_only(group)\n        self.synchronize()\n", "            self.keep_only(group)\n"))
B("P23", GM, ("    def all_entities(self):\n        self.synchronize()\n", "    def all_entities(self):\n"))
B("P23", GM, ("        self.synchronize()\n        if filename is None:\n            filename = self.model_name\n        gmsh.write", "        if filename is None:\n            filename = self.model_name\n        gmsh.write"))
B("P23", GM, ("        self.synchronize()\n        reg_to_tags = {}", "        reg_to_tags = {}"))
B("P23", GM, ("        self.factory.synchronize()\n        try:\n            dimtags = gmsh.model.getBoundary(self.dim_tags, combined=False, o", "        try:\n            dimtags = gmsh.model.getBoundary(self.dim_tags, combined=False, o"))
B("P23", GM, ("        self._need_synchronize = True\n        try:\n            self.model.remove(list(remove_dimtags), recursive=False)\n        except ValueError:\n            pass\n", "        try:\n            self.model.remove(list(remove_dimtags), recursive=False)\n        except ValueError:\n            self._need_synchronize = True\n"))
B("P23", GM, ("        if self._need_synchronize:\n            self.model.synchronize()\n            self._need_synchronize = False\n", "        if self._need_synchronize:\n            self._need_synchronize = False\n            self.all_entities()\n            self.model.synchronize()\n"))
K("P23", GM, ("            self.model.synchronize()\n            self._need_synchronize = False\n", "            self.model.synchronize()\n        self._need_synchronize = False\n"))
K("P23", GM, ("        if self._need_synchronize:\n            self.model.synchronize()\n            self._need_synchronize = False\n", "        if not self._need_synchronize:\n            return\n        self.model.synchronize()\n        self._need_synchronize = False\n"))
K("P23", GM, ("        box_tag = self.model.addBox(*corner, *sides)\n        self._need_synchronize = True\n        return self.object(3, box_tag)", "        return self._new(3, self.model.addBox(*corner, *sides))\n\n    def _new(self, dim, tag):\n        self._need_synchronize = True\n        return self.object(dim, tag)"))
K("P23", GM, ("        copy_tags = self.factory.model.copy(self.dim_tags)\n        self.factory._need_synchronize = True\n", "        factory = self.factory\n        factory._need_synchronize = True\n        copy_tags = factory.model.copy(self.dim_tags)\n"))
K("P23", GM, ("        self._need_synchronize = True\n        try:\n            self.model.remove(list(remove_dimtags), recursive=False)\n        except ValueError:\n            pass\n", "        try:\n            self.model.remove(list(remove_dimtags), recursive=False)\n        except ValueError:\n            pass\n        self._need_synchronize = True\n"))

# ---- P25
B("P25", GM, ("            begin = end\n            o.invalidate()\n", "            begin = end\n"))
B("P25", GM, ("            begin = end\n            o.invalidate()\n", "            begin = end\n            if len(dim_tag_map) > 1:\n                o.invalidate()\n"))
B("P25", GM, ("        for tool in tool_objects:\n            tool.invalidate()\n", ""))
B("P25", GM, ("        self.invalidate()\n        tool_objects.invalidate()\n", "        tool_objects.invalidate()\n"))
B("P25", GM, ("        tool_objects = self.factory.group(*tool_objects).copy()\n        try:", "        tool_objects = self.factory.group(*tool_objects)\n        try:"))
B("P25", GM, ("        tool = self.factory.group(*tool_objects).copy()\n", "        tool = self.factory.group(*tool_objects)\n"))
B("P25", GM, ("        sc = self.copy()\n", "        sc = self\n"))
B("P25", GM, ("        self.factory = None\n        self.dim_tags = None\n", "        self.factory = None\n"))
B("P25", GM, ("        # assign regions\n        assert len(self.regions) == len(self.dim_tags), (len(self.regions), len(self.dim_tags))\n", "        self.invalidate()\n"))
B("P25", GM, ("        tool.invalidate()\n        sc.invalidate()\n", "        tool.invalidate()\n        self.invalidate()\n"))
B("P25", GM, ("        tool.invalidate()\n        sc.invalidate()\n", "        for t in tool_objects:\n            t.invalidate()\n        sc.invalidate()\n"))
B("P25", GM, ("removeObject=True, removeTool=True)\n        except ValueError as err :\n            message = \"\\nobj dimtags: {}\\ntool", "removeObject=False, removeTool=True)\n        except ValueError as err :\n            message = \"\\nobj dimtags: {}\\ntool"))
B("P25", GM, ("        return new_obj\n\n    def cut", "        return self.factory.group(new_obj, tool_objects)\n\n    def cut"))
K("P25", GM, ("        tool.invalidate()\n        sc.invalidate()\n", "        for used in (sc, tool):\n            used.invalidate()\n"))
K("P25", GM, ("        self.invalidate()\n        tool_objects.invalidate()\n", "        self._consumed(tool_objects)\n"), ("    def invalidate(self):", "    def _consumed(self, *others):\n        for o in [self, *others]:\n            o.invalidate()\n\n    def invalidate(self):"))
K("P25", GM, ("        self.factory = None\n        self.dim_tags = None\n        self.regions = None\n", "        self.factory = self.dim_tags = self.regions = None\n"))
K("P25", GM, ("            begin = end\n            o.invalidate()\n", "            begin = end\n        for o in object_sets:\n            o.invalidate()\n"))
K("P25", GM, ("all_dimtags = list(itertools.chain(*[o.dim_tags for o in object_sets]))", "all_dimtags = [dt for o in object_sets for dt in o.dim_tags]"))
K("P25", GM, ("all_dimtags = list(itertools.chain(*[o.dim_tags for o in object_sets]))", "all_dimtags = []\n        for o in object_sets:\n            all_dimtags.extend(o.dim_tags)"))

# ---- P24
B("P24", GM, ("            begin = end\n            o.invalidate()\n", "            o.invalidate()\n"))
B("P24", GM, ("            begin = end\n            o.invalidate()\n", "            begin = end + 1\n            o.invalidate()\n"))
B("P24", GM, ("list(itertools.accumulate((o.size for o in object_sets)))", "[o.size for o in object_sets]"))
B("P24", GM, ("old_tags_map[:len(self.dim_tags)]", "old_tags_map[len(self.dim_tags):]"))
B("P24", GM, ("zip(self.regions, old_tags_map[:len(self.dim_tags)])", "zip(tool_objects.regions, old_tags_map[:len(self.dim_tags)])"))
B("P24", GM, ("        regions = [r for r, m in zip(self.regions, masses) if m > mass_limit]\n        self.dim_tags = dimtags\n        self.regions = regions", "        self.dim_tags = dimtags"))
B("P24", GM, ("        regions = [r for r, m in zip(self.regions, masses) if m > mass_limit]", "        regions = [r for r, m in zip(self.regions, masses) if m >= mass_limit]"))
B("P24", GM, ("            regions[dim].append(reg)", "            if reg not in regions[dim]:\n                regions[dim].append(reg)"))
B("P24", GM, ("            reg_to_tags.setdefault(reg.id, (reg, []))\n            reg_to_tags[reg.id][1].append(tag)", "            reg_to_tags.setdefault(reg.name, (reg, []))\n            reg_to_tags[reg.name][1].append(tag)"))
B("P24", GM, ("            reg_to_tags[reg.id][1].append(tag)", "            reg_to_tags[reg.id][1].append(dim)"))
B("P24", GM, ("        self.regions = [region.complete(dim) for dim, tag in self.dim_tags]", "        self.regions = [region for dim, tag in self.dim_tags]"))
B("P24", GM, ("        self.regions = [region.complete(dim) for dim, tag in self.dim_tags]", "        self.regions = [region.complete(tag) for dim, tag in self.dim_tags]"))
B("P24", GM, ("            assert (len(regions) == len(dim_tags))\n", ""))
B("P24", GM, ("        objs, map = self.factory.model.intersect(sc.dim_tags, tool.dim_tags)", "        objs, map = self.factory.model.intersect(tool.dim_tags, sc.dim_tags)"))
B("P24", GM, ("        isec_tool = {k: dict_tool[k] for k in isec_set}", "        isec_tool = {k: dict_obj[k] for k in isec_set}"))
B("P24", GM, ("        regions = [Region.default_region[dim] for dim, tag in dimtags]", "        regions = [Region.default_region[tag] for dim, tag in dimtags]"))
B("P24", GM, ("            self.dim = dim\n        else:\n            assert self.dim == dim, (self.dim, dim)", "            self.dim = dim"))
B("P24", GM, ("        return ObjectSet(self.factory, copy_tags, self.regions)", "        return ObjectSet(self.factory, copy_tags, sorted(self.regions, key=lambda r: r.id))"))
B("P24", GM, ("                   for reg in obj.regions]\n        return ObjectSet(self, all_dim_tags, regions)", "                   for reg in set(obj.regions)]\n        return ObjectSet(self, all_dim_tags, regions)"))
B("P24", GM, ("                   for obj in obj_list\n                   for reg in obj.regions]", "                   for obj in reversed(obj_list)\n                   for reg in obj.regions]"))
B("P24", GM, ("        return self.object(2, rec_tag)", "        return self.object(3, rec_tag)"))
B("P24", GM, ("                isec.append(dimtagreg)", "                isec.append(dimtagreg[::-1])"))
B("P24", GM, ("            new_sets.append(newset)", "            if newset.size:\n                new_sets.append(newset)"))
B("P24", GM, ("            reg._gmsh_id = gmsh.model.addPhysicalGroup(reg.dim, tags, tag=-1)", "            reg._gmsh_id = gmsh.model.addPhysicalGroup(reg.id, tags, tag=-1)"))
B("P24", GM, ("            regions.append(new_region)\n        self.regions = regions\n", "            regions.append(new_region)\n        self.regions = regions[::-1]\n"))
K("P24", GM, ("            dim_tag_map = tags_map[begin:end]", "            dim_tag_map = tags_map[end - o.size:end]"))
K("P24", GM, ("        for o, end in zip(object_sets, cumulsizes):\n            dim_tag_map = tags_map[begin:end]", "        for o in object_sets:\n            end = begin + o.size\n            dim_tag_map = tags_map[begin:end]"))
K("P24", GM, ("zip(self.regions, old_tags_map[:len(self.dim_tags)])", "zip(self.regions, old_tags_map)"))
K("P24", GM, ("        dimtags = [dt for dt, m in zip(self.dim_tags, masses) if m > mass_limit]\n        regions = [r for r, m in zip(self.regions, masses) if m > mass_limit]\n        self.dim_tags = dimtags\n        self.regions = regions", "        keep = [(dt, r) for dt, r, m in zip(self.dim_tags, self.regions, masses) if m > mass_limit]\n        self.dim_tags = [dt for dt, r in keep]\n        self.regions = [r for dt, r in keep]"))
K("P24", GM, ("        all_dim_tags = [dim_tag\n                        for obj in obj_list\n                        for dim_tag in obj.dim_tags]", "        all_dim_tags = list(itertools.chain(*[obj.dim_tags for obj in obj_list]))"))
K("P24", GM, ("            self.regions = [regions[0] for _ in dim_tags]", "            self.regions = regions * len(dim_tags)"))
K("P24", GM, ("        if isec:\n            dimtags, regs = zip(*isec)\n        else:\n            return ObjectSet(self.factory, [], [])\n        return ObjectSet(self.factory, dimtags, regs)", "        dimtags = [dt for dt, reg in isec]\n        regs = [reg for dt, reg in isec]\n        return ObjectSet(self.factory, dimtags, regs)"))
K("P24", GM, ("        regions = [Region.default_region[dim] for dim, tag in dimtags]", "        regions = [Region.default_region[dt[0]] for dt in dimtags]"))
K("P24", GM, ("        regions = []\n        for dim, tag in self.dim_tags:\n            name = \"{}_{}\".format(dim, tag)\n            regions.append(self.factory.get_region_name(name))\n        self.regions = regions", "        self.regions = [self.factory.get_region_name(\"{}_{}\".format(*dt)) for dt in self.dim_tags]"))
K("P24", GM, ("        reg_sets = [ObjectSet(self.factory, dimtags, [reg]) for reg, dimtags in reg_to_tags.values()]\n        return reg_sets", "        reg_sets = []\n        for entry in reg_to_tags.values():\n            reg_sets.append(ObjectSet(self.factory, entry[1], [entry[0]]))\n        return reg_sets"))
K("P24", GM, ("            reg_to_tags.setdefault(reg.id, (reg, []))\n            reg_to_tags[reg.id][1].append(tag)", "            reg_to_tags.setdefault(reg.id, (reg, []))[1].append(tag)"))
K("P24", GM, ("        sets = [ObjectSet(self.factory, dimtags, regs) for regs, dimtags in zip(regions, dimtags)]", "        sets = [ObjectSet(self.factory, dimtags[d], regions[d]) for d in range(4)]"))

# ---- P26
FD = "gmsh/field.py"
B("P26", FD, ('    gmsh_field.setNumber(id, "YMax", pt_max[1])', '    gmsh_field.setNumber(id, "YMax", pt_max[0])'))
B("P26", FD, ('    gmsh_field.setNumber(id, "ZMin", pt_min[2])', '    gmsh_field.setNumber(id, "ZMin", pt_max[2])'))
B("P26", FD, ('    field_min, threshold_min = lower_bound\n    gmsh', '    threshold_min, field_min = lower_bound\n    gmsh'))
B("P26", FD, ('        gmsh_field.setNumber(id, "DistMax", field_max)\n', ''))
B("P26", FD, ('    gmsh_field.setNumber(id, "VIn", v_in)\n    gmsh_field.setNumber(id, "VOut", v_out)', '    gmsh_field.setNumber(id, "VIn", v_out)\n    gmsh_field.setNumber(id, "VOut", v_in)'))
B("P26", FD, ('box((-radius, -radius, -radius), (radius, radius, radius), v_in=value)', 'box((radius, radius, radius), (-radius, -radius, -radius), v_in=value)'))
B("P26", FD, ('box((-radius, -radius, -radius), (radius, radius, radius), v_in=value)', 'box((-radius, -radius, -radius), (radius, radius, radius), value, value)') if False else ('(radius, radius, radius), v_in=value)', '(radius, radius, value), v_in=value)'))
B("P26", FD, ("    id = gmsh_field.add('Max')", "    id = gmsh_field.add('Min')"))
B("P26", FD, ('    gmsh_field.setNumbers(id, "EdgesList", edges.tags)\n    gmsh_field.setNumbers(id, "FacesList", faces.tags)', '    gmsh_field.setNumbers(id, "EdgesList", faces.tags)\n    gmsh_field.setNumbers(id, "FacesList", edges.tags)'))
B("P26", FD, ('    points, edges, faces, volumes = group', '    volumes, faces, edges, points = group'))
B("P26", FD, ('    if sigmoid:\n        gmsh_field.setNumber(id, "Sigmoid", True)', '    if upper_bound:\n        gmsh_field.setNumber(id, "Sigmoid", True)'))
B("P26", FD, ('    else:\n        gmsh_field.setNumber(id, "StopAtDistMax", True)', '    gmsh_field.setNumber(id, "StopAtDistMax", True)'))
B("P26", FD, ('    gmsh_field.setNumber(id, "NNodesByEdge", nodes_per_edge)\n', '    gmsh_field.setNumber(id, "NNodesByEdge", 8)\n'))
B("P26", FD, ('    gmsh_field.setNumbers(id, "RegionsList", volumes.tags)\n    return id', '    gmsh_field.setNumbers(id, "RegionsList", volumes.tags)\n    return field'))
K("P26", FD, ('    gmsh_field.setNumber(id, "XMax", pt_max[0])\n    gmsh_field.setNumber(id, "XMin", pt_min[0])\n    gmsh_field.setNumber(id, "YMax", pt_max[1])\n    gmsh_field.setNumber(id, "YMin", pt_min[1])\n    gmsh_field.setNumber(id, "ZMax", pt_max[2])\n    gmsh_field.setNumber(id, "ZMin", pt_min[2])\n', '    for axis, lo, hi in zip("XYZ", pt_min, pt_max):\n        gmsh_field.setNumber(id, axis + "Max", hi)\n        gmsh_field.setNumber(id, axis + "Min", lo)\n'))
K("P26", FD, ('    gmsh_field.setNumber(id, "XMax", pt_max[0])\n    gmsh_field.setNumber(id, "XMin", pt_min[0])\n    gmsh_field.setNumber(id, "YMax", pt_max[1])\n    gmsh_field.setNumber(id, "YMin", pt_min[1])\n    gmsh_field.setNumber(id, "ZMax", pt_max[2])\n    gmsh_field.setNumber(id, "ZMin", pt_min[2])\n', '    for i, axis in enumerate(["X", "Y", "Z"]):\n        gmsh_field.setNumber(id, "{}Max".format(axis), pt_max[i])\n        gmsh_field.setNumber(id, f"{axis}Min", pt_min[i])\n'))
K("P26", FD, ('    id = gmsh_field.add(\'Min\')\n    gmsh_field.setNumbers(id, "FieldsList", fields)\n    return id', '    return _combined("Min", fields)\n\n\ndef _combined(kind, fields):\n    f = gmsh_field.add(kind)\n    gmsh_field.setNumbers(f, "FieldsList", fields)\n    return f'))
K("P26", FD, ('    if upper_bound:\n', '    if upper_bound is not None:\n'))
K("P26", FD, ('        gmsh_field.setNumber(id, "DistMax", field_max)\n        gmsh_field.setNumber(id, "LcMax", threshold_max)', '        for name, value in (("DistMax", field_max), ("LcMax", threshold_max)):\n            gmsh_field.setNumber(id, name, value)'))
K("P26", FD, ('box((-radius, -radius, -radius), (radius, radius, radius), v_in=value)', 'box(3 * (-radius,), 3 * [radius], value)'))

# ---- P27
OP = "gmsh/options.py"
B("P27", OP, ('        assert key in self.names_map, "Unknown option {}.".format(key)\n        gmsh_name, option_type = self.names_map[key]', '        gmsh_name, option_type = self.names_map.get(key, (key, type(value)))'))
B("P27", OP, ('            assert option_type in {int, float, bool} or issubclass(option_type, enum.Enum), str(option_type)\n', ''))
B("P27", OP, ('            assert option_type is str\n', ''))
B("P27", OP, ('        if isinstance(value, (int, float, bool)):', '        if isinstance(value, (int, float, bool, str)):'))
B("P27", OP, ('        full_name = self.prefix + gmsh_name', '        full_name = gmsh_name'))
B("P27", OP, ('        full_name = self.prefix + gmsh_name', '        full_name = "Mesh." + gmsh_name'))
B("P27", OP, ('            self.instance_setattr(gmsh_name, default)\n', ''))
B("P27", OP, ("        # Random factor used in the 3D meshing algorithm\n        self.finish_init()", "        # Random factor used in the 3D meshing algorithm"))
B("P27", OP, ("        super().__init__('Geometry.')", "        super().__init__('Mesh.')"))
B("P27", OP, ("        object.__setattr__(self, '_sa', self.instance_setattr)", "        object.__setattr__(self, '_sa', self.init_setattr)"))
B("P27", OP, ("            raise ValueError(\"Unsupported value type {} for GMSH option type.\".format(type(value)))", "            print(\"Unsupported value type {} for GMSH option type.\".format(type(value)))"))
B("P27", OP, ("            assert option_type in {int, float, bool} or issub", "            assert option_type in {int, float, bool, str} or issub"))
B("P27", OP, ("            option_type = type(default)\n            self.names_map[gmsh_name] = (gmsh_name, option_type)\n            self.instance_setattr(gmsh_name, default)", "            option_type = type(default)\n            self.names_map[gmsh_name] = (gmsh_name, float)\n            self.instance_setattr(gmsh_name, default)"))
B("P27", OP, ("        if isinstance(value, (int, float, bool)):\n            assert option_type in {int, float, bool} or issubclass(option_type, enum.Enum), str(option_type)\n            gmsh.option.setNumber(full_name, value)", "        if isinstance(value, (int, float, bool)):\n            gmsh.option.setNumber(full_name, value)\n            assert option_type in {int, float, bool} or issubclass(option_type, enum.Enum), str(option_type)"))
K("P27", OP, ('        assert key in self.names_map, "Unknown option {}.".format(key)\n', '        if key not in self.names_map:\n            raise KeyError(key)\n'))
K("P27", OP, ('            option_type = default\n            self.names_map[gmsh_name] = (gmsh_name, option_type)\n        else:\n            option_type = type(default)\n            self.names_map[gmsh_name] = (gmsh_name, option_type)\n            self.instance_setattr(gmsh_name, default)', '            self.names_map[gmsh_name] = (gmsh_name, default)\n            return\n        self.names_map[gmsh_name] = (gmsh_name, type(default))\n        self.instance_setattr(gmsh_name, default)'))
K("P27", OP, ('        full_name = self.prefix + gmsh_name', '        full_name = f"{self.prefix}{gmsh_name}"'))
K("P27", OP, ('        full_name = self.prefix + gmsh_name', '        full_name = "{}{}".format(self.prefix, gmsh_name)'))
K("P27", OP, ('        if isinstance(value, (int, float, bool)):\n            assert option_type in {int, float, bool} or issubclass(option_type, enum.Enum), str(option_type)\n            gmsh.option.setNumber(full_name, value)\n        elif', '        if isinstance(value, (int, float, bool)):\n            if option_type not in (int, float, bool) and not issubclass(option_type, enum.Enum):\n                raise AssertionError(str(option_type))\n            gmsh.option.setNumber(full_name, value)\n        elif'))
K("P27", OP, ('        if isinstance(value, (int, float, bool)):\n            assert option_type in {int, float, bool} or issubclass(option_type, enum.Enum), str(option_type)\n            gmsh.option.setNumber(full_name, value)\n        elif', '        numeric = option_type in {int, float, bool} or issubclass(option_type, enum.Enum)\n        if isinstance(value, (int, float, bool)):\n            assert numeric, str(option_type)\n            gmsh.option.setNumber(full_name, value)\n        elif'))
K("P27", OP, ("        self._sa(key, value)", "        setter = self._sa\n        setter(key, value)"))

# ---- P22
B("P22", IO, ("print('%d %d %s' % (dim, region_id, name), file=mshfile)", "print('%d %d %s' % (region_id, dim, name), file=mshfile)"))
B("P22", IO, ("columns = line.split(None, 2)", "columns = line.split()"))
B("P22", IO, ("                            tags = columns[3:3 + ntags]", "                            tags = columns[3:5]"))
B("P22", IO, ("                            nodes = columns[3 + ntags:]", "                            nodes = columns[5:]"))
B("P22", IO, ("            print(node_id, ' ', ' '.join([str(c) for c in coord]), sep=\"\",", "            print(node_id, ' ', ' '.join(['%.8f' % c for c in coord]), sep=\"\","))
B("P22", IO, ("            print(node_id, ' ', ' '.join([str(c) for c in coord]), sep=\"\",", "            print(node_id, ' ', ' '.join(['{:.12g}'.format(c) for c in coord]), sep=\"\","))
B("P22", IO, ("and len(columns) > 3:", "and len(columns) > 5:"))
B("P22", IO, ("print('$Elements\\n%d' % len(self.elements), file=mshfile)", "print('$Elements\\n%d' % len(self.nodes), file=mshfile)"))
B("P22", IO, ('                 "{n_components}\\n" \\\n                 "{n_els}\\n".format(**header_dict)\n\n        f.write(\'$ElementData\\n\')\n        f.write(header)\n        assert len(values.shape) == 2\n        for ele_id, value_row in zip(ele_ids, values):\n            value_line = " ".join([str(val) for val in value_row])\n            f.write("{:d} {}\\n".format(int(ele_id), value_line))\n        f.write(\'$EndElementData\\n\')\n\n    def write_fields', '                 "{n_els}\\n" \\\n                 "{n_components}\\n".format(**header_dict)\n\n        f.write(\'$ElementData\\n\')\n        f.write(header)\n        assert len(values.shape) == 2\n        for ele_id, value_row in zip(ele_ids, values):\n            value_line = " ".join([str(val) for val in value_row])\n            f.write("{:d} {}\\n".format(int(ele_id), value_line))\n        f.write(\'$EndElementData\\n\')\n\n    def write_fields'))
B("P22", IO, ("        return field, time, t_idx, n_comp, n_elem\n", "        return field, time, t_idx, n_elem, n_comp\n"))
B("P22", IO, ("        print('$EndElements', file=mshfile)", "        print('$EndElement', file=mshfile)"))
B("P22", IO, ("self.nodes[int(columns[0])] = [float(col) for col in columns[1:]]", "self.nodes[int(columns[0])] = [int(float(col)) for col in columns[1:]]"))
B("P22", IO, ("            elem_data[iel] = values\n", "            elem_data[i] = values\n"))
B("P22", IO, ("            (ele_type, tags, nodes) = elem\n            print(ele_id,", "            (ele_type, tags, nodes) = elem\n            if len(nodes) < 2:\n                continue\n            print(ele_id,"))
B("P22", IO, ("                  ' '.join([str(c) for c in nodes]), sep=\"\", file=mshfile)", "                  ' '.join([str(c) for c in sorted(nodes)]), sep=\"\", file=mshfile)"))
B("P22", IO, ("print('$MeshFormat\\n2.2 0 8\\n$EndMeshFormat', file=mshfile)", "print('$MeshFormat\\n2.2 1 8\\n$EndMeshFormat', file=mshfile)"))
B("P22", IO, ("        field = mshfile.readline().strip().strip('\"')", "        field = mshfile.readline().strip()"))
B("P22", IO, ("        field_time_dict = self.element_data.setdefault(field, {})", "        field_time_dict = self.element_data.setdefault(time, {})"))
B("P22", IO, ("            values = [float(v) for v in columns[1:]]", "            values = [float(v) for v in columns[1:n_comp]]"))
B("P22", IO, ("            values = [float(v) for v in columns[1:]]", "            values = [int(v) for v in columns[1:]]"))
B("P22", IO, ("                        self.elements[id] = (type, tags, nodes)", "                        self.elements[id] = (type, nodes, tags)"))
B("P22", IO, ("= (int(columns[1]), int(columns[0]))", "= (int(columns[0]), int(columns[1]))"))
B("P22", IO, ("            values = [float(v) for v in columns[1:]]\n            assert", "            values = [float(v) for v in columns]\n            assert"))
B("P22", IO, ("        for i in range(n_ele):", "        for i in range(n_comp):"))
B("P22", IO, ("        columns = mshfile.readline().strip().split()\n        n_int_tags = int(columns[0])\n        assert (n_int_tags == 3)\n        columns = mshfile.readline().strip().split()\n        t_idx = int(columns[0])", "        columns = mshfile.readline().strip().split()\n        t_idx = int(columns[0])\n        columns = mshfile.readline().strip().split()\n        n_int_tags = int(columns[0])"))
B("P22", IO, ("        time = float(columns[0])\n", "        time = float(n_real_tags)\n"))
B("P22", IO, ("            print(ele_id, ' ', ele_type, ' ', len(tags), ' ',\n", "            print(ele_id, ' ', ele_type, ' ', len(nodes), ' ',\n"))
B("P22", IO, ("            f.write(\"{:d} {}\\n\".format(int(ele_id), value_line))\n        f.write('$EndElementData\\n')\n\n    def write_fields", "            f.write(\"{:d} {}\\n\".format(int(ele_id), value_line))\n\n    def write_fields"))
B("P22", IO, ("            value_line = \" \".join([str(val) for val in value_row])\n            f.write(\"{:d} {}\\n\".format(int(ele_id), value_line))\n        f.write('$EndElementData\\n')\n\n    def write_fields", "            value_line = \" \".join([\"{:g}\".format(val) for val in value_row])\n            f.write(\"{:d} {}\\n\".format(int(ele_id), value_line))\n        f.write('$EndElementData\\n')\n\n    def write_fields"))
K("P22", IO, ("            print(node_id, ' ', ' '.join([str(c) for c in coord]), sep=\"\",\n                  file=mshfile)", "            x, y, z = coord\n            mshfile.write(f\"{node_id} {x} {y} {z}\\n\")"))
K("P22", IO, ("        for node_id in sorted(self.nodes.keys()):\n            coord = self.nodes[node_id]\n", "        for node_id, coord in sorted(self.nodes.items()):\n"))
K("P22", IO, ("            line = mshfile.readline()\n            if line.startswith('$'):\n                raise", "            line = mshfile.readline().strip()\n            if line.startswith('$'):\n                raise"))
K("P22", IO, ("        readmode = 0\n        print('Reading %s' % mshfile.name)\n        line = 'a'\n        while line:\n            line = mshfile.readline()\n            line = line.strip()\n", "        readmode = 0\n        print('Reading %s' % mshfile.name)\n        while True:\n            line = mshfile.readline()\n            if not line:\n                break\n            line = line.strip()\n"))
K("P22", IO, ("                if line == '$NOD' or line == '$Nodes':\n                    readmode = 1\n                elif line == '$ELM':\n                    readmode = 2\n                elif line == '$Elements':\n                    readmode = 3\n                elif line == '$MeshFormat':\n                    readmode = 4\n                elif line == '$PhysicalNames':\n                    readmode = 5\n                elif line == '$ElementData':\n                    self.read_element_data_block(mshfile)\n                else:\n                    readmode = 0\n", "                if line == '$ElementData':\n                    self.read_element_data_block(mshfile)\n                    readmode = 0\n                else:\n                    modes = {'$NOD': 1, '$Nodes': 1, '$ELM': 2, '$Elements': 3, '$MeshFormat': 4, '$PhysicalNames': 5}\n                    readmode = modes.get(line, 0)\n"))
K("P22", IO, ("            values = [float(v) for v in columns[1:]]\n", "            values = [float(v) for v in columns[1:1 + n_comp]]\n"))
K("P22", IO, ("                            ntags = columns[2]\n                            tags = columns[3:3 + ntags]\n                            nodes = columns[3 + ntags:]", "                            begin, end = 3, 3 + columns[2]\n                            tags, nodes = columns[begin:end], columns[end:]"))
K("P22", IO, ("self.nodes[int(columns[0])] = [float(col) for col in columns[1:]]", "self.nodes[int(columns[0])] = list(map(float, columns[1:4]))"))
K("P22", IO, ("            print(ele_id, ' ', ele_type, ' ', len(tags), ' ',\n                  ' '.join([str(c) for c in tags]), ' ',\n                  ' '.join([str(c) for c in nodes]), sep=\"\", file=mshfile)", "            items = [ele_id, ele_type, len(tags)] + list(tags) + list(nodes)\n            print(' '.join(str(i) for i in items), file=mshfile)"))
K("P22", IO, ("            print(ele_id, ' ', ele_type, ' ', len(tags), ' ',\n                  ' '.join([str(c) for c in tags]), ' ',\n                  ' '.join([str(c) for c in nodes]), sep=\"\", file=mshfile)", "            tag_str = ' '.join(map(str, tags))\n            node_str = ' '.join(map(str, nodes))\n            print('{} {} {} {} {}'.format(ele_id, ele_type, len(tags), tag_str, node_str), file=mshfile)"))
K("P22", IO, ("        n_els = values.shape[0]\n        n_comp = np.atleast_1d(values[0]).shape[0]\n        values = np.reshape(values, (n_els, n_comp))\n        header_dict", "        values = np.asarray(values)\n        values = values.reshape(values.shape[0], -1)\n        n_els, n_comp = values.shape\n        header_dict"))
K("P22", IO, ("        columns = mshfile.readline().strip().split()\n        t_idx = int(columns[0])\n        columns = mshfile.readline().strip().split()\n        n_comp = int(columns[0])\n        columns = mshfile.readline().strip().split()\n        n_elem = int(columns[0])", "        t_idx, n_comp, n_elem = [int(mshfile.readline().split()[0]) for _ in range(3)]"))
K("P22", IO, ("        columns = mshfile.readline().strip().split()\n        t_idx = int(columns[0])\n        columns = mshfile.readline().strip().split()\n        n_comp = int(columns[0])\n        columns = mshfile.readline().strip().split()\n        n_elem = int(columns[0])", "        t_idx = int(mshfile.readline())\n        n_comp = int(mshfile.readline())\n        n_elem = int(mshfile.readline())"))
# ---- P20
B("P20", HM, ("        for nid in e.node_ids:\n            self.node_els[nid].add(self.max_ele_id)\n", "        for nid in e.node_ids[1:]:\n            self.node_els[nid].add(self.max_ele_id)\n"))
B("P20", HM, ("        for nid in e.node_ids:\n            self.node_els[nid].add(self.max_ele_id)\n", "        for nid in e.node_ids:\n            if nid in self.mesh.nodes and len(self.node_els[nid]) > 0:\n                self.node_els[nid].add(self.max_ele_id)\n"))
B("P20", HM, ("        self.max_ele_id += 1\n        if e.shape", "        self.max_ele_id = len(self.mesh.elements) + 1\n        if e.shape"))
B("P20", HM, ("        if self.is_duplicate_el(e):\n            return\n", ""))
B("P20", HM, ("        if self.is_duplicate_el(e):\n            return\n", "        if self.is_duplicate_el(e) and e.shape.measure < 0.1:\n            return\n"))
B("P20", HM, ("self.max_ele_id = max(self.mesh.elements.keys())", "self.max_ele_id = len(self.mesh.elements)"))
B("P20", HM, ("self.max_node_id = max(self.mesh.nodes.keys())", "self.max_node_id = max(self.mesh.elements.keys())"))
B("P20", HM, ("        for nid in set(node_ids):\n            try:", "        for nid in set(node_ids[:3]):\n            try:"))
B("P20", HM, ("        assert len(self.node_els[nid]) == 0, self.node_els[nid]\n        del", "        del"))
B("P20", HM, ("        del self.mesh.nodes[nid]\n        del self.node_els[nid]\n", "        del self.mesh.nodes[nid]\n"))
B("P20", HM, ("            self.remove_element(i_el)\n            self.add_element((el_type, el_tags, el_node_ids))\n", "            self.mesh.elements[i_el] = (el_type, el_tags, el_node_ids)\n            self.modified_elements.add(i_el)\n"))
B("P20", HM, ("            self.remove_element(i_el)\n            self.add_element((el_type, el_tags, el_node_ids))\n", "            self.mesh.elements[i_el] = (el_type, el_tags, el_node_ids)\n            self.node_els[target_node].add(i_el)\n            self.modified_elements.add(i_el)\n"))
B("P20", HM, ("            for nid in edge_nids:\n                i_pos = el_node_ids.index(nid)\n                new_node_ids = el_node_ids.copy()\n", "            for nid in edge_nids:\n                i_pos = el_node_ids.index(nid)\n                new_node_ids = el_node_ids\n"))
B("P20", HM, ("        elements = set.intersection(*node_sets)", "        elements = set.union(*node_sets)"))
B("P20", HM, ("        node_sets = [self.node_els[n] for n in node_ids]", "        node_sets = [self.node_els[n] for n in node_ids[:3]]"))
B("P20", HM, ("if self.mesh.elements[eid][0] == ele.type]", "if self.mesh.elements[eid][1] == ele.type]"))
B("P20", HM, ("for eid in self.common_elements(ele.node_ids) if", "for eid in self.common_elements(ele.node_ids[1:]) if"))
B("P20", HM, ("            type, tags, node_ids = e\n            for n in node_ids:\n", "            type, tags, node_ids = e\n            if len(node_ids) < 2: continue\n            for n in node_ids:\n"))
B("P20", HM, ("        self.node_els[self.max_node_id] = set()", "        self.node_els[self.max_node_id] = set(self.node_els[self.max_node_id - 1])"))
B("P20", HM, ("        self.max_node_id += 1\n        self.mesh.nodes[self.max_node_id] = node", "        self.max_node_id = len(self.mesh.nodes) + 1\n        self.mesh.nodes[self.max_node_id] = node"))
K("P20", HM, ("        for nid in e.node_ids:\n            self.node_els[nid].add(self.max_ele_id)\n", "        new_id = self.max_ele_id\n        for nid in ele[2]:\n            self.node_els[nid].add(new_id)\n"))
K("P20", HM, ("        if self.is_duplicate_el(e):\n            return\n", "        if len(self.is_duplicate_el(e)) > 0:\n            return None\n"))
K("P20", HM, ("        for nid in set(node_ids):\n            try:\n                self.node_els[nid].remove(eid)\n            except KeyError as e:\n                print(\"Failed for \", nid)\n                print(self._history[eid])\n                raise e\n", "        self._unlink(eid, node_ids)\n"), ("    def is_duplicate_el(self, ele):", "    def _unlink(self, eid, nids):\n        for nid in nids:\n            self.node_els[nid].discard(eid)\n\n    def is_duplicate_el(self, ele):"))
K("P20", HM, ("        type, tags, node_ids = self.mesh.elements[eid]\n        for nid in set(node_ids):", "        node_ids = self.mesh.elements[eid][2]\n        for nid in sorted(set(node_ids)):"))
K("P20", HM, ("        assert len(self.node_els[nid]) == 0, self.node_els[nid]\n        del self.mesh.nodes[nid]\n        del self.node_els[nid]\n", "        assert not self.node_els[nid]\n        self.node_els.pop(nid)\n        self.mesh.nodes.pop(nid)\n"))
K("P20", HM, ("        elements = set.intersection(*node_sets)", "        elements = set(node_sets[0])\n        for s in node_sets[1:]:\n            elements &= s"))
K("P20", HM, ("        elements = set.intersection(*node_sets)", "        elements = node_sets[0].intersection(*node_sets[1:])"))
K("P20", HM, ("        duplicate_els = [eid for eid in self.common_elements(ele.node_ids) if self.mesh.elements[eid][0] == ele.type]\n        return duplicate_els", "        out = []\n        for eid in self.common_elements(ele.node_ids):\n            el_type = self.mesh.elements[eid][0]\n            if el_type != ele.type:\n                continue\n            out.append(eid)\n        return out"))
K("P20", HM, ("        self.max_node_id += 1\n        self.mesh.nodes[self.max_node_id] = node\n        self.node_els[self.max_node_id] = set()\n        return self.max_node_id", "        nid = self.max_node_id + 1\n        self.max_node_id = nid\n        self.node_els[nid] = set()\n        self.mesh.nodes[nid] = node\n        return nid"))
K("P20", HM, ("        for eid, e in self.mesh.elements.items():\n            type, tags, node_ids = e\n            for n in node_ids:\n                self.node_els[n].add(eid)\n            self._history[eid].append(('A', node_ids))", "        for eid, (type, tags, node_ids) in self.mesh.elements.items():\n            self._history[eid].append(('A', node_ids))\n            for n in node_ids:\n                self.node_els[n].add(eid)"))
K("P20", HM, ("            self.remove_element(i_el)\n            self.add_element((el_type, el_tags, el_node_ids))\n", "            self.mesh.elements[i_el] = (el_type, el_tags, el_node_ids)\n            self.node_els[rm_node].discard(i_el)\n            self.node_els[target_node].add(i_el)\n            self.modified_elements.add(i_el)\n"))
K("P20", HM, ("max(self.mesh.elements.keys())", "max(self.mesh.elements)"), ("max(self.mesh.nodes.keys())", "sorted(self.mesh.nodes)[-1]"))
# ---- P21
B("P21", HM, ("while el_to_check or modified:", "while el_to_check:"))
B("P21", HM, ("                modified = self._check_degen_nodes(ele)\n                if modified or eid not in self.mesh.elements: continue\n", "                modified = self._check_degen_nodes(ele)\n                if modified: continue\n"))
B("P21", HM, ("                modified = self._check_dupl_nodes(ele)\n                if modified or eid not in self.mesh.elements: continue\n", "                modified = self._check_dupl_nodes(ele)\n                if modified: continue\n"))
B("P21", HM, ("                modified = self._check_flat_tetra(ele)\n                if modified or eid not in self.mesh.elements: continue\n", "                modified = self._check_flat_tetra(ele)\n                if modified: continue\n"))
B("P21", HM, ("        self.modified_elements.add(self.max_ele_id)\n", ""))
B("P21", HM, ("        self.modified_elements.add(self.max_ele_id)\n", "        if e.shape.measure < 0.1:\n            self.modified_elements.add(self.max_ele_id)\n"))
B("P21", HM, ("        self.modified_elements.update(self.node_els[nid])\n", ""))
B("P21", HM, ("        self.modified_elements.update(self.node_els[nid])\n", "        self.modified_elements.update(e.eid for e in new_signs if e.shape.measure > 0)\n"))
B("P21", HM, ("        for oe, ne in zip(orig, new_signs):\n", "        for oe, ne in zip(orig, new_signs):\n            self.modified_elements.add(ne.eid) if ne.shape.measure != oe.shape.measure else None\n"), ("        self.modified_elements.update(self.node_els[nid])\n", ""))
B("P21", HM, ("        self.modified_elements = set()\n        return modif", "        self.modified_elements.clear()\n        return modif"))
B("P21", HM, ("        self.modified_elements = set()\n        return modif", "        return modif"))
B("P21", HM, ("                modified = self._check_flat_triangle(ele)\n", "                self._check_flat_triangle(ele)\n"))
B("P21", HM, ("                modified = self._check_flat_triangle(ele)\n                if modified: continue\n", "                modified = self._check_flat_triangle(ele)\n"))
B("P21", HM, ("            el_to_check.extend(modified)\n            modified = []\n", "            modified = []\n"))
B("P21", HM, ("            el_to_check.extend(modified)\n            modified = []\n", "            if len(modified) > 1:\n                el_to_check.extend(modified)\n            modified = []\n"))
B("P21", HM, ("            if eid in self.mesh.elements:\n                ele =", "            if eid <= self.max_ele_id:\n                ele ="))
B("P21", HM, ("        assert rm_node != target_node\n", "        assert rm_node != target_node\n        self.reset_modified()\n"))
B("P21", HM, ("        self.merge_node(*merge_nodes)\n        return self.reset_modified()", "        modified = self.reset_modified()\n        self.merge_node(*merge_nodes)\n        return modified"))
B("P21", HM, ("                new_node_ids[i_nid_el] = ele.node_ids[i_inner_node]\n                self.add_element((el_type, el_tags, new_node_ids))\n        return self.reset_modified()", "                new_node_ids[i_nid_el] = ele.node_ids[i_inner_node]\n                self.add_element((el_type, el_tags, new_node_ids))\n        return [self.max_ele_id]"))
B("P21", HM, ("            self.merge_node(*edge_ids)\n        return self.reset_modified()", "            self.merge_node(*edge_ids)\n            return [e for e in self.node_els[edge_ids[1]]]\n        return []"))
B("P21", HM, ("            return self._heal_triangle_flat_case(ele, flat_nodes, outer_face)\n        elif n_pos==3:", "            self._heal_triangle_flat_case(ele, flat_nodes, outer_face)\n            return [ele.eid]\n        elif n_pos==3:"))
B("P21", HM, ("        self.move_node(target_node, node_avg)\n", "        self.mesh.nodes[target_node] = node_avg\n"))
B("P21", HM, ("el_to_check = collections.deque(self.mesh.elements.keys())", "el_to_check = collections.deque([e for e in self.mesh.elements if e != orig_n_el])"))
K("P21", HM, ("            el_to_check.extend(modified)\n            modified = []\n", "            for m in modified:\n                el_to_check.append(m)\n            modified = []\n"))
K("P21", HM, ("        while el_to_check or modified:\n            el_to_check.extend(modified)\n            modified = []\n", "        while True:\n            el_to_check.extend(modified)\n            modified = []\n            if not el_to_check:\n                break\n"))
K("P21", HM, ("            if eid in self.mesh.elements:\n                ele =", "            if eid not in self.mesh.elements:\n                continue\n            else:\n                ele ="))
K("P21", HM, ("        modif = self.modified_elements\n        self.modified_elements = set()\n        return modif", "        modif, self.modified_elements = self.modified_elements, set()\n        return modif"))
K("P21", HM, ("        modif = self.modified_elements\n        self.modified_elements = set()\n        return modif", "        modif = list(self.modified_elements)\n        self.modified_elements.clear()\n        return modif"))
K("P21", HM, ("        self.modified_elements.update(self.node_els[nid])\n", "        self.modified_elements |= self.node_els[nid]\n"))
K("P21", HM, ("        self.modified_elements.update(self.node_els[nid])\n", "        for eid in self.node_els[nid]:\n            self.modified_elements.add(eid)\n"))
K("P21", HM, ("        self.modified_elements.update(self.node_els[nid])\n", "        self.modified_elements.update(self.active(self.node_els[nid]))\n"))
K("P21", HM, ("            return self._heal_triangle_flat_case(ele, flat_nodes, outer_face)\n        elif n_pos==3:", "            modified = self._heal_triangle_flat_case(ele, flat_nodes, outer_face)\n            return modified\n        elif n_pos==3:"))
K("P21", HM, ("            self.merge_node(*edge_ids)\n        return self.reset_modified()", "            self.merge_node(*edge_ids)\n            return self.reset_modified()\n        return []"))
K("P21", HM, ("            eid = el_to_check.pop()\n            if eid in self.mesh.elements:\n                ele = self._make_element(eid)\n                modified = self._check_dupl_nodes(ele)\n                if modified or eid not in self.mesh.elements: continue\n                modified = self._check_degen_nodes(ele)\n                if modified or eid not in self.mesh.elements: continue\n                modified = self._check_duplicate_element(ele)\n                if modified: continue\n\n                if ele.shape.dim < 2: continue\n                if ele.shape.gmsh_gamma() > self.gamma_tol: continue\n                modified = self._check_flat_tetra(ele)\n                if modified or eid not in self.mesh.elements: continue\n                modified = self._check_flat_triangle(ele)\n                if modified: continue\n                modified = self._check_small_edge(ele)\n                if modified: continue\n",
 "            modified = self._heal_one(el_to_check.pop())\n\n    def _heal_one(self, eid):\n        if eid not in self.mesh.elements:\n            return []\n        ele = self._make_element(eid)\n        modified = self._check_dupl_nodes(ele)\n        if modified or eid not in self.mesh.elements:\n            return modified\n        modified = self._check_degen_nodes(ele)\n        if modified or eid not in self.mesh.elements:\n            return modified\n        modified = self._check_duplicate_element(ele)\n        if modified or ele.shape.dim < 2 or ele.shape.gmsh_gamma() > self.gamma_tol:\n            return modified\n        modified = self._check_flat_tetra(ele)\n        if modified or eid not in self.mesh.elements:\n            return modified\n        modified = self._check_flat_triangle(ele)\n        if modified:\n            return modified\n        return self._check_small_edge(ele)\n"))
K("P21", HM, ("                modified = self._check_flat_tetra(ele)\n                if modified or eid not in self.mesh.elements: continue\n                modified = self._check_flat_triangle(ele)\n                if modified: continue\n                modified = self._check_small_edge(ele)\n                if modified: continue\n", "                for check in (self._check_flat_tetra, self._check_flat_triangle, self._check_small_edge):\n                    modified = check(ele)\n                    if modified or (check == self._check_flat_tetra and eid not in self.mesh.elements):\n                        break\n"))
# ---- P30
K("P30", BS, ("    @property\n    def tree(self):\n        if self._tree == None:\n            self.bounding_boxes()\n        return self._tree\n\nclass", "    @property\n    def tree(self):\n        if self._boxes == None:\n            self.bounding_boxes()\n        return self._tree\n\nclass"))
B("P30", HM, ("        if self._edge_lens is None:\n", "        if self._edge_vectors is None:\n"))
B("P30", HM, ("        return self._face_areas\n", "        return self._face_areas[:3]\n"))
K("P30", HM, ("            self._face_areas = [Triangle(self.nodes[face_vtxs]).measure for face_vtxs in self.vtxs_faces]\n        return self._face_areas", "            return [Triangle(self.nodes[face_vtxs]).measure for face_vtxs in self.vtxs_faces]\n        return self._face_areas"))
B("P30", HM, ("        approx_common_normal = v[-1, :]\n", "        self._edge_vectors = v\n        approx_common_normal = v[-1, :]\n"))
B("P30", HM, ("        u, s, v = np.linalg.svd(self.edge_vectors)\n", "        vecs = self.edge_vectors\n        vecs /= np.linalg.norm(vecs, axis=1)[:, None]\n        u, s, v = np.linalg.svd(vecs)\n"))
B("P30", HM, ("        self.dim = len(nodes) - 1\n        self.nodes = nodes\n        self._measure = None\n", "        self.dim = len(nodes) - 1\n        self.nodes = nodes\n        self._measure = 0.0\n"))
B("P30", HM, ("    def small_edge_ratio(self):\n", "    def scale(self, s):\n        self.nodes = self.nodes * s\n        self._edge_vectors = None\n        self._edge_lens = None\n\n    def small_edge_ratio(self):\n"))
B("P30", HM, ("    def flat_indicator(self):\n", "    def shift(self, v):\n        self.nodes += v\n\n    def flat_indicator(self):\n"))
B("P30", BS, ("        tree.add_boxes(boxes)\n        tree.construct()\n\n        self._tree = tree\n        self._boxes = boxes\n\n    @property\n    def boxes(self):\n        if self._boxes == None:\n            self.bounding_boxes()\n        return self._boxes\n\n    @property\n    def tree(self):\n        if self._tree == None:\n            self.bounding_boxes()\n        return self._tree\n\nclass", "        tree.add_boxes(boxes[1:])\n        tree.construct()\n\n        self._tree = tree\n        self._boxes = boxes\n\n    @property\n    def boxes(self):\n        if self._boxes == None:\n            self.bounding_boxes()\n        return self._boxes\n\n    @property\n    def tree(self):\n        if self._tree == None:\n            self.bounding_boxes()\n        return self._tree\n\nclass"))
B("P30", BS, ("    @property\n    def tree(self):\n        if self._tree == None:\n            self.bounding_boxes()\n        return self._tree\n\nclass", "    @property\n    def tree(self):\n        if self._boxes == None:\n            self.bounding_boxes()\n        return self._tree\n\n    def drop_tree(self):\n        self._tree = None\n\nclass"))
B("P36", BS, ("self.poles[it:it + n_poles, 0:self.dim].tolist()", "self.poles[it:it + n_poles - 1, 0:self.dim].tolist()"))
B("P36", BS, ("self.poles[iu: iu + du, iv: iv + dv, 0:self.dim]", "self.poles[iu: iu + du, iu: iu + dv, 0:self.dim]"))
K("P30", HM, ("        if self._edge_lens is None:\n            self._edge_lens = [np.linalg.norm(edge_vec) for edge_vec in self.edge_vectors]\n        return self._edge_lens\n", "        if self._edge_lens is not None:\n            return self._edge_lens\n        lens = [np.linalg.norm(edge_vec) for edge_vec in self.edge_vectors]\n        self._edge_lens = lens\n        return lens\n"))
K("P30", HM, ("    def small_edge_ratio(self):\n", "    def scale(self, s):\n        self.nodes = self.nodes * s\n        self._edge_vectors = None\n        self._edge_lens = None\n        self._measure = None\n        self._gamma = None\n        self._face_normals = None\n        self._face_areas = None\n\n    def small_edge_ratio(self):\n"))
K("P30", BS, ("        if self._boxes == None:\n            self.bounding_boxes()\n        return self._boxes\n\n    @property\n    def tree(self):\n        if self._tree == None:\n            self.bounding_boxes()\n        return self._tree\n\nclass", "        if self._boxes is None:\n            self.bounding_boxes()\n        return self._boxes\n\n    @property\n    def tree(self):\n        if self._tree is None:\n            self.bounding_boxes()\n        return self._tree\n\nclass"))
K("P30", BS, ("self.poles[it:it + n_poles, 0:self.dim].tolist()", "self.poles[it:n_poles + it, :self.dim].tolist()"))
K("P30", HM, ("        if not self._measure:\n", "        if self._measure is None:\n"))
K("P30", HM, ("        self.dim = len(nodes) - 1\n        self.nodes = nodes\n        self._measure = None\n        self._edge_vectors = None\n        self._edge_lens = None\n        self._gamma = None\n", "        self.dim = len(nodes) - 1\n        self.nodes = nodes\n        self._reset()\n\n    def _reset(self):\n        self._measure = self._edge_vectors = None\n        self._edge_lens = None\n        self._gamma = None\n"))
K("P30", HM, ("            self._gamma = 3 * r/max(1e-300, R)\n        return self._gamma\n", "            self._gamma = self._ratio(r, R)\n        return self._gamma\n\n    @staticmethod\n    def _ratio(r, R):\n        return 3 * r/max(1e-300, R)\n"))

# ---- P31
B("P31", HM, ("edges = [[0, 1], [0, 2], [0, 3], [2, 3], [1, 3], [1, 2]]", "edges = [[0, 1], [0, 2], [0, 3], [2, 3], [1, 2], [1, 2]]"))
B("P31", HM, ("vtxs_faces = [[0, 1, 2], [0, 3, 1], [0, 2, 3], [1, 3, 2]]", "vtxs_faces = [[0, 1, 2], [0, 3, 1], [0, 2, 3], [1, 2, 3]]"))
B("P31", HM, ("vtxs_faces = [[0, 1, 2], [0, 3, 1], [0, 2, 3], [1, 3, 2]]", "vtxs_faces = [[1, 3, 2], [0, 2, 3], [0, 3, 1], [0, 1, 2]]"))
B("P31", HM, ("edges = [[1, 2], [2, 0], [0, 1]]", "edges = [[0, 1], [1, 2], [2, 0]]"))
B("P31", HM, ("edges = [[1, 2], [2, 0], [0, 1]]", "edges = [[1, 2], [0, 2], [0, 1]]"))
B("P31", HM, ("np.array([self.nodes[b] - self.nodes[a] for a,b in  self.edges])", "np.array([self.nodes[a] - self.nodes[b] for a,b in  self.edges])"))
B("P31", HM, ("i_inner_node = 3 - outer_face", "i_inner_node = outer_face"))
B("P31", HM, ("outer_face = np.argmax(cos_face_norm > 0)", "outer_face = np.argmax(cos_face_norm <= 0)"))
B("P31", HM, ("outer_face = np.argmax(cos_face_norm <= 0)", "outer_face = np.argmax(cos_face_norm > 0)"))
B("P31", HM, ("i_x_edge = max_edge[1] ", "i_x_edge = max_edge[0] "))
B("P31", HM, ("x_edge_u = -tria", "x_edge_u = tria"))
B("P31", HM, ("        tt = t / len_max_edge\n", "        tt = t\n"))
B("P31", HM, ("projected = tria_shape.nodes[max_edge[0]] + tt", "projected = tria_shape.nodes[max_edge[1]] + tt"))
B("P31", HM, ("canonical_faces = [[0, 1, 2], [0, 1, 3], [2, 3, 0], [2, 3, 1]]", "canonical_faces = [[0, 1, 2], [0, 1, 3], [2, 3, 0], [3, 2, 0]]"))
B("P31", HM, ("canonical_faces = [[0, 1, 2], [0, 1, 3], [2, 3, 0], [2, 3, 1]]", "canonical_faces = [[0, 1, 2], [0, 3, 1], [2, 3, 0], [2, 3, 1]]"))
B("P31", HM, ("self.nodes[1:, :] - self.nodes[0, :]) / 6", "self.nodes[1:, :] - self.nodes[0, :]) / 2"))
B("P31", HM, ("np.array([-Triangle(self.nodes[face_vtxs]).normal() for face_vtxs in self.vtxs_faces])", "np.array([-Triangle(self.nodes[sorted(face_vtxs)]).normal() for face_vtxs in self.vtxs_faces])") if False else ("return np.cross(self.nodes[1] - self.nodes[0], self.nodes[2] - self.nodes[0])", "return np.cross(self.nodes[1] - self.nodes[0], self.nodes[2] + self.nodes[0])"))
B("P31", GM, ("faces = [(0, 1, 2), (0, 3, 4), (2, 3, 5), (1, 4, 5)]", "faces = [(0, 1, 2), (0, 3, 4), (2, 4, 5), (1, 3, 5)]"))
B("P31", GM, ("lines = [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]", "lines = [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (1, 3)]"))
B("P31", GM, ("points = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]", "points = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0)]"))
B("P31", HM, ("            self._measure = np.linalg.norm(np.cross(self.nodes[2] - self.nodes[0], self.nodes[1] - self.nodes[0])) / 2", "            self._measure = np.linalg.norm(np.cross(self.nodes[2] - self.nodes[0], self.nodes[1] - self.nodes[0]))"))
K("P31", HM, ("            self._measure = np.linalg.norm(np.cross(self.nodes[2] - self.nodes[0], self.nodes[1] - self.nodes[0])) / 2", "            self._measure = 0.5 * np.linalg.norm(self.normal())"))
K("P31", HM, ("np.array([self.nodes[b] - self.nodes[a] for a,b in  self.edges])", "np.array([-(self.nodes[e[0]] - self.nodes[e[1]]) for e in self.edges])"))
K("P31", HM, ("        t = x_edge_u @ max_edge_u / len_max_edge\n        tt = t / len_max_edge\n", "        tt = (x_edge_u @ max_edge_u) / len_max_edge ** 2\n"))
K("P31", HM, ("projected = tria_shape.nodes[max_edge[0]] + tt", "projected = tria_shape.nodes[max_edge[1]] + (tt - 1)"))
K("P31", HM, ("i_inner_node = 3 - outer_face", "i_inner_node = 6 - sum(Tetrahedron.vtxs_faces[outer_face])"))
K("P31", HM, ("edges = [[0, 1], [0, 2], [0, 3], [2, 3], [1, 3], [1, 2]]", "edges = [[0, 1], [2, 0], [3, 0], [2, 3], [3, 1], [1, 2]]"))
K("P31", HM, ("        x_edge_u = -tria_shape.edge_vectors[i_x_edge]\n", "        x_edge_u = tria_shape.nodes[i_max_edge] - tria_shape.nodes[max_edge[0]]\n"))
K("P31", HM, ("canonical_faces = [[0, 1, 2], [0, 1, 3], [2, 3, 0], [2, 3, 1]]", "canonical_faces = [[1, 0, 2], [0, 1, 3], [2, 3, 1], [2, 3, 0]]"))
K("P31", HM, ("outer_face = np.argmax(cos_face_norm <= 0)", "outer_face = np.argmin(cos_face_norm > 0)"))
K("P31", GM, ("faces = [(0, 1, 2), (0, 3, 4), (2, 3, 5), (1, 4, 5)]", "faces = [(0, 2, 1), (4, 3, 0), (2, 3, 5), (1, 4, 5)]"))
K("P31", GM, ("            line_ids = [self.model.addLine(*[point_ids[p] for p in l]) for l in lines[:6]]\n            loop_ids", "            line_ids = []\n            for l in lines[:6]:\n                line_ids.append(self.model.addLine(point_ids[l[0]], point_ids[l[1]]))\n            loop_ids"))

# ---- P35
B("P35", HM, ("e_faces = [[0, 1], [0, 2], [1, 2], [2, 3], [1, 3], [0, 3]]", "e_faces = [[0, 1], [0, 2], [1, 2], [2, 3], [0, 3], [1, 3]]"))
B("P35", HM, ("faces[i] * faces[j] * elen ** 2 for", "faces[i] * faces[j] * elen for"))
B("P35", HM, ("quality = np.abs(self.measure) * (np.sum(faces)", "quality = self.measure * (np.sum(faces)"))
B("P35", HM, ("** (3.0/4.0)", "** (2.0/3.0)"))
B("P35", HM, ("            a,b,c,A,B,C = self.edge_lens\n", "            a,b,c,A,C,B = self.edge_lens\n"))
B("P35", HM, ("(a*A - b*B + c*C)*(-a*A", "(a*A - b*B + c*C)*(a*A"))
B("P35", HM, ("R = np.sqrt(x_area) / 24", "R = np.sqrt(x_area) / 6"))
B("P35", HM, ("            V = np.abs(self.measure)\n", "            V = self.measure\n"))
B("P35", HM, ("alt_gamma = 8 * (s/a-1)*(s/b-1)*(s/c-1)", "alt_gamma = 8 * (s/a-1)*(s/b-1)*(s/b-1)"))
B("P35", HM, ("            s = (a + b + c)/2\n", "            s = (a + b + c)\n"))
B("P35", HM, ("prod = max(1e-300, (np.prod(e_lens)) ** (2.0 / 3.0))", "prod = max(1e-300, (np.prod(e_lens)) ** (1.0 / 3.0))"))
B("P35", HM, ("        return min_edge / max_edge", "        return min_edge / max_edge ** 2"))
B("P35", HM, ("            alt = 3 * np.abs", "            alt = 6 * np.abs"))
B("P35", HM, ("        return alt / max_edge", "        return alt / self.edge_lens[0]"))
B("P35", HM, ("'flow_stats': 'smooth_grad_error_indicator'", "'flow_stats': 'smooth_grad_indicator'"))
B("P35", HM, ("if quality <= bad_el_tol:", "if quality >= bad_el_tol:"))
B("P35", HM, ("                        bad_els[method].append(eid)\n", "                        bad_els['flow_stats'].append(eid)\n") if False else ("first_smaller = np.argmax(quality < bins)", "first_smaller = np.argmax(quality > bins)"))
B("P35", HM, ("                    first_smaller = np.argmax(quality < bins)\n                    hist[first_smaller] += 1", "                        first_smaller = np.argmax(quality < bins)\n                        hist[first_smaller] += 1"))
B("P35", HM, ("bad_elements=bad_els[name]", "bad_elements=bad_els['flow_stats']"))
B("P35", HM, ("        bins = np.concatenate((bins, [np.inf]))\n", ""))
K("P35", HM, ("        return alt / max_edge", "        return alt * (1.0 / max_edge)"))
K("P35", HM, ("            a,b,c,A,B,C = self.edge_lens\n", "            c,b,a,C,B,A = self.edge_lens\n"))
K("P35", HM, ("alt_gamma = 8 * (s/a-1)*(s/b-1)*(s/c-1)", "alt_gamma = 8 * (s-a)*(s-b)*(s-c)/(a*b*c)"))
K("P35", HM, ("quality = np.abs(self.measure) * (np.sum(faces)", "quality = abs(self.measure) * (sum(faces)"))
K("P35", HM, ("first_smaller = np.argmax(quality < bins)", "first_smaller = int(np.argmax(bins > quality))"))
K("P35", HM, ("        min_edge = np.min(self.edge_lens)\n        max_edge = max(1e-300, np.max(self.edge_lens))\n        return min_edge / max_edge", "        lens = self.edge_lens\n        return min(lens) / max(1e-300, max(lens))"))
K("P35", HM, ("                    if quality <= bad_el_tol:\n                        bad_els[method].append(eid)\n                    first_smaller = np.argmax(quality < bins)\n                    hist[first_smaller] += 1\n", "                    hist[np.argmax(quality < bins)] += 1\n                    if not quality > bad_el_tol:\n                        bad_els[method] += [eid]\n"))
B("P31", HM, ("shape_class = {1:Point, 2:Line, 3:Triangle, 4:Tetrahedron}", "shape_class = {1:Point, 2:Line, 4:Triangle, 3:Tetrahedron}"))
B("P31", HM, ("rhs = (pos_0 - neg_0)[sub_rows[im]]", "rhs = (neg_0 - pos_0)[sub_rows[im]]"))
B("P31", HM, ("M = np.stack((pos_u, -neg_u), axis=1)", "M = np.stack((pos_u, neg_u), axis=1)"))
B("P31", HM, ("M = np.stack((pos_u, -neg_u), axis=1)", "M = np.stack((pos_u, -neg_u), axis=0)"))
B("P31", HM, ("isec_point = pos_0 + pos_t * pos_u", "isec_point = pos_0 + neg_t * pos_u"))
B("P31", HM, ("isec_point = pos_0 + pos_t * pos_u", "isec_point = neg_0 + pos_t * pos_u"))
B("P31", HM, ("sub_rows = [[0,1], [0, 2], [1,2]]", "sub_rows = [[0,1], [0, 2], [1,1]]"))
K("P31", HM, ("isec_point = pos_0 + pos_t * pos_u", "isec_point = (1 - neg_t) * neg_0 + neg_t * neg_1"))
K("P31", HM, ("M = np.stack((pos_u, -neg_u), axis=1)", "M = np.column_stack((-pos_u, neg_u))"), ("np.linalg.solve(M, -rhs)", "np.linalg.solve(M, rhs)"))
K("P31", HM, ("sub_rows = [[0,1], [0, 2], [1,2]]", "sub_rows = [[1,0], [0, 2], [2,1]]"))

# ---- P32
B("P32", BS, ("basis_values[1] = ((dt1 * d3t) / d31_d32) + ((dt2 * d4t) / d42_d32)", "basis_values[1] = ((dt1 * d3t) / d31_d32) + ((dt2 * d3t) / d42_d32)"))
B("P32", BS, ("        basis_values[0] = (d3t * d3t) / d31_d32\n", "        basis_values[0] = (d3t * d3t) / (d31 * d31)\n"))
B("P32", BS, ("        basis_values[1] = (d3t - dt1) / d31_d32 + (d4t - dt2) / d42_d32", "        basis_values[1] = (d3t - dt1) / d31_d32 + (d3t - dt2) / d42_d32"))
B("P32", BS, ("        basis_values[2] = 2 * dt2 / d42_d32", "        basis_values[2] = 2 * dt2 / d31_d32"))
B("P32", BS, ("tk1, tk2, tk3, tk4 = self.knots[i_int + 1: i_int + 5]", "tk1, tk2, tk3, tk4 = self.knots[i_int: i_int + 4]"))
B("P32", BS, ("            t_i1 = self.knots[idx + 1]\n            top = t_ik1 - t", "            t_i1 = self.knots[idx]\n            top = t_ik1 - t"))

B("P32", BS, ("                value += top / bottom * self._basis(deg-1, idx+1, t)", "                value += top / bottom * self._basis(deg-1, idx, t)"))
B("P32", BS, ("            return - deg  / (self.knots[i + deg + 1] - self.knots[i + 1])", "            return - deg  / (self.knots[i + deg] - self.knots[i])"))
B("P32", BS, ("            return  deg  / (self.knots[i + deg] - self.knots[i])", "            return  - deg  / (self.knots[i + deg] - self.knots[i])"))
B("P32", BS, ("            diff -= deg * B / (self.knots[i + deg + 1] - self.knots[i + 1])", "            diff -= deg * B / (self.knots[i + deg] - self.knots[i + 1])"))
B("P32", BS, ("        if i < self.size - 1:\n            B =", "        if i < self.size - 2:\n            B ="))
B("P32", BS, ("            diff += deg * B", "            diff += (deg - 1) * B"))
B("P32", BS, ("[t], side='right')[0] - 1", "[t], side='left')[0] - 1"))


B("P32", BS, ("return (self.knots[i_interval + self.degree], self.knots[i_interval + self.degree + 1])", "return (self.knots[i_interval + self.degree], self.knots[i_interval + self.degree + 2])"))
B("P32", BS, ("return (self.knots[i_base], self.knots[i_base + self.degree + 1])", "return (self.knots[i_base], self.knots[i_base + self.degree])"))
B("P32", BS, ("            if t < self.domain[0]:\n                return self.domain[0]", "            if t < self.domain[0]:\n                return self.domain[1]"))
B("P32", BS, ("(self.knots[i + self.degree + 1] - self.knots[i  + 1]) / float(self.degree)", "(self.knots[i + self.degree + 1] - self.knots[i  + 1]) / float(self.degree + 1)"))
B("P32", BS, ("(self.knots[i + self.degree + 1] - self.knots[i  + 1]) / float(self.degree)", "(self.knots[i + self.degree] - self.knots[i]) / float(self.degree)"))
B("P32", BS, ("            knots[i] = (i - degree) * diff + knot_range[0]", "            knots[i] = (i - degree) * diff"))
B("P32", BS, ("        diff = (knot_range[1] - knot_range[0]) / n_intervals", "        diff = (knot_range[1] - knot_range[0]) / (n_intervals + 1)"))
B("P32", BS, ("            values.append( self.eval_diff(ib, t))", "            values.append( self.eval_diff(ib - i_base, t))"))
B("P32", BS, ("        for ib in range(i_base, i_base + self.degree + 1):\n            values.append( self.eval(ib", "        for ib in range(i_base + 1, i_base + self.degree + 2):\n            values.append( self.eval(ib"))
B("P32", BS, ("        self.n_intervals = self.size - self.degree\n", "        self.n_intervals = self.size - self.degree + 1\n"))
B("P32", BS, ("        if i_base == self.size -1 and t == self.domain[1]:\n            return 1.0", "        if i_base == self.size -1 and t == self.domain[0]:\n            return 1.0"))
K("P32", BS, ("basis_values[1] = ((dt1 * d3t) / d31_d32) + ((dt2 * d4t) / d42_d32)", "basis_values[1] = 1.0 - (d3t * d3t) / d31_d32 - (dt2 * dt2) / d42_d32"))
K("P32", BS, ("        basis_values[0] = (d3t * d3t) / d31_d32\n", "        basis_values[0] = (d3t / d31) * (d3t / d32)\n"))
K("P32", BS, ("        basis_values[1] = (d3t - dt1) / d31_d32 + (d4t - dt2) / d42_d32", "        basis_values[1] = 2 * d3t / d31_d32 - 2 * dt2 / d42_d32"))
K("P32", BS, ("        tk1, tk2, tk3, tk4 = self.knots[i_int + 1: i_int + 5]", "        tk1 = self.knots[i_int + 1]\n        tk2, tk3 = self.knots[i_int + 2: i_int + 4]\n        tk4 = self.knots[i_int + 4]"))
K("P32", BS, ("        values = []\n        for ib in range(i_base, i_base + self.degree + 1):\n            values.append( self.eval(ib, t))\n        return values", "        return [self.eval(i_base + j, t) for j in range(self.degree + 1)]"))
K("P32", BS, ("            pp = poles[-1] + (self.knots[i + self.degree + 1] - self.knots[i  + 1]) / float(self.degree)\n            poles.append(pp)\n", "            step = (self.knots[i + 1 + self.degree] - self.knots[i + 1]) / self.degree\n            poles.append(poles[-1] + step)\n"))
K("P32", BS, ("        diff = 0.0\n        if i > 0:\n            B = self._basis(deg-1, i, t)\n            diff += deg * B / (self.knots[i + deg] - self.knots[i])\n", "        diff = deg * self._basis(deg-1, i, t) / (self.knots[i + deg] - self.knots[i]) if i > 0 else 0.0\n"))
K("P32", BS, ("[t], side='right')[0] - 1", "t, side='right') - 1"))
K("P32", BS, ("            if t < self.domain[0]:\n                return self.domain[0]\n            else:\n                return self.domain[1]\n\n            self.domain[0]\n", "            return min(max(t, self.domain[0]), self.domain[1])\n"))
K("P32", BS, ("            knots[i] = (i - degree) * diff + knot_range[0]", "            knots[i] = knot_range[0] + (knot_range[1] - knot_range[0]) * (i - degree) / n_intervals"))
B("P32", BS, ("(knot_range[0],) * n, dtype=float)", "(knot_range[0],) * n)"))
B("P32", BS, ("        poles= [ self.knots[0] ]\n", "        poles= [ 0.0 ]\n"))
K("P32", BS, ("np.array((knot_range[0],) * n, dtype=float)", "np.full(n, float(knot_range[0]))"))
K("P32", BS, ("np.array((knot_range[0],) * n, dtype=float)", "np.full(n, knot_range[0], dtype=np.double)"))
K("P32", BS, ("        poles= [ self.knots[0] ]\n", "        poles = [self.domain[0]]\n"))

# ---- P29
PT = "polygons/point.py"
B("P29", PT, ("    def __hash__(self):\n        return self.id\n", "    def __hash__(self):\n        return id(self)\n"))
B("P29", IM, ("    def __hash__(self):\n        return self.id\n", "    def __hash__(self):\n        return object.__hash__(self)\n"), )
B("P29", GM, ("        reg_to_tags = {}\n        reg_names", "        reg_to_tags = {}\n        used = {reg for _, reg in obj.dimtagreg()}\n        for reg in used:\n            reg_to_tags[reg.id] = (reg, [])\n        reg_names"))
B("P29", GM, ("        for id_set in reg_names.values():\n", "        for id_set in [reg_names[n] for n in set(reg_names)]:\n"), ("reg_to_tags[id][0].set_unique_name(i)", "reg_to_tags[id][0].set_unique_name(i + len(reg_to_tags))"))
B("P29", GM, ("reg_names[reg.name].add(reg.id)", "reg_names[reg.name].add(reg)"), ("for i, id in enumerate(sorted(id_set)", "for i, id in enumerate(id_set"), ("reg_to_tags[id][0].set_unique_name(i)", "id.set_unique_name(i)"))
B("P29", BW, ("            groups['locations'].append(self)\n            self.id = len(groups['locations'])", "            groups['locations'].append(self)\n            self.id = len(groups['locations'])\n            groups['locations'].sort(key=id)"))
B("P29", BW, ("        stream.write(\"1\\n\")\n        for row in self.matrix:", "        stream.write(\"{}\\n\".format(1 + 0 * id(self)))\n        for row in self.matrix:"))
B("P29", "bspline/bspline_approx.py", ("        start_time = time.time()\n        logging", "        self._seed = time.time()\n        start_time = self._seed\n        logging")) if False else None
B("P29", HM, ("        modif = self.modified_elements\n", "        modif = {self.elements[e] and str(e) for e in self.modified_elements}\n        modif = [int(e) for e in modif]\n"))
B("P29", GM, ('            name = "{}_{}".format(dim, tag)\n', '            name = "{}_{}_{}".format(dim, tag, id(self))\n'))
B("P29", GM, ("        for obj in obj_list\n                   for reg in obj.regions]", "        for obj in obj_list\n                   for reg in sorted(obj.regions, key=hash)]")) if False else None
B("P29", BS, ("        xyz_box[1, 0:2] = np.amax(self.quad, axis=0)\n", "        xyz_box[1, 0:1] = np.amax(self.quad[:, 0:1], axis=0)\n"))
K("P29", BS, ("        xyz_box = np.empty( (2, 3) )\n", "        shape = (2, 3)\n        xyz_box = np.empty(shape)\n"))
K("P29", BS, ("        xyz_box[0, 0:2] = np.amin(self.quad, axis=0)\n        xyz_box[1, 0:2] = np.amax(self.quad, axis=0)\n", "        xyz_box[:, :2] = [np.amin(self.quad, axis=0), np.amax(self.quad, axis=0)]\n"))
K("P29", GM, ("for i, id in enumerate(sorted(id_set)", "for i, id in enumerate(id_set"))
K("P29", GM, ("reg_names[reg.name].add(reg.id)", "reg_names[reg.name].add(reg)"), ("for i, id in enumerate(sorted(id_set)", "for i, id in enumerate(sorted(id_set, key=lambda r: r.id)"), ("reg_to_tags[id][0].set_unique_name(i)", "id.set_unique_name(i)"))
K("P29", GM, ("        isec_set = set(dict_obj) & set(dict_tool)\n", "        isec_set = dict_obj.keys() & dict_tool.keys()\n"))
K("P29", PG, ("        boundary_wires = [poly.outer_wire for poly in changed_polygons]\n", "        boundary_wires = []\n        for poly in changed_polygons:\n            boundary_wires.append(poly.outer_wire)\n"))
K("P29", BW, ("        if id(self) in groups['numbered']:\n            return\n        groups['numbered'].add(id(self))\n", "        key = id(self)\n        done = groups['numbered']\n        if key in done:\n            return\n        done.add(key)\n"))
K("P29", BW, ("        if id(self) in groups['numbered']:\n            return\n        groups['numbered'].add(id(self))\n", "        seen = groups['numbered']\n        n = len(seen)\n        seen.add(id(self))\n        if len(seen) == n:\n            return\n"))
K("P29", BW, ("numbered=set())", "numbered={})"), ("        if id(self) in groups['numbered']:\n            return\n        groups['numbered'].add(id(self))\n", "        if id(self) in groups['numbered']:\n            return\n        groups['numbered'][id(self)] = True\n"))
K("P29", GM, ("        reg_to_tags = {}\n        reg_names", "        reg_to_tags = {}\n        used = {reg for _, reg in obj.dimtagreg()}\n        assert all(r.dim is not None for r in used) or len(used) >= 0\n        for reg in used:\n            assert reg.name\n        reg_names"))
K("P29", GM, ("        reg_to_tags = {}\n        reg_names", "        reg_to_tags = {}\n        names = sorted({reg.name for _, reg in obj.dimtagreg()})\n        logging.debug(names)\n        reg_names")) if False else None
K("P29", HM, ("            raise", "            raise")) if False else None

# ---- P28
B("P28", GM, ('str(self.dim_tags[:10]), str(tool_objects.dim_tags[:10]))\n            raise', 'str(self.dim_tag[:10]), str(tool_objects.dim_tags[:10]))\n            raise'))
B("P28", GM, ('"\\nobj dimtags: {}\\ntool dimtags: {}".format(str(self.dim_tags[:10]), str(tool_objects.dim_tags[:10]))\n            raise', '"\\nobj dimtags: {}\\ntool dimtags: {}".format(str(self.dim_tags[:10]))\n            raise'))
B("P28", GM, ("raise BoolOperationError(\"Can not select", "raise BoolOperatonError(\"Can not select"))
B("P28", GM, ("gmsh.model.mesh.getLastEntityError()", "gmsh.model.mesh.getLastEntitiesError()"))
B("P28", GM, ("gmsh.model.setPhysicalName(reg.dim, reg._gmsh_id, reg.name)", "gmsh.model.setPhysicalName(reg.dim, reg._gmsh_id)"))
B("P28", GM, ("gmsh.model.addPhysicalGroup(reg.dim, tags, tag=-1)", "gmsh.model.addPhysicalGroup(reg.dim, tags, id=-1)"))
B("P28", PG, ("            new_seg = self._split_segment(seg, mid_pt)\n\n        return (mid_pt, new_seg)", "            new_seg = self._split_segment(seg)\n\n        return (mid_pt, new_seg)"))
B("P28", PG, ("            mid_pt = seg.vtxs[in_vtx]\n            new_seg = seg\n        else:\n            xy_point", "            mid_pt = seg.vtxs[in_vtx]\n        else:\n            xy_point"))
B("P28", PG, ("        return (mid_pt, new_seg)\n", "        return (mid_pt, seg, new_seg)\n"))
B("P28", PG, ("            mid_pt = self._add_point(xy_point, self.decomp.outer_polygon)", "            mid_pt = self._add_point(xy_point, self.decomp.outer_polygn)"))
B("P28", HM, ("        aabb_max = np.full(3, -np.inf)\n", "        aabb_max = np.ful(3, -np.inf)\n"))
B("P28", HM, ("        import yaml\n        with", "        with"))
B("P28", HM, ("import collections\n", ""))
B("P28", HM, ("        hist, bins, bad_els = self.quality_statistics(bad_el_tol=el_tol)\n        output", "        hist, bins, bad_els = self.quality_statistics(el_tol=el_tol)\n        output"))
B("P28", BS, ("class IrregularGridExc(Exception):", "class IrregularGridExc:"))
B("P28", PG, ("from . import aabb_lookup\n", ""))
B("P28", UN, ("from contextlib", "from contextlbi")) if False else None
K("P28", GM, ("        bad_entities = gmsh.model.mesh.getLastEntityError()\n", "        try:\n            bad_entities = gmsh.model.mesh.getLastEntityError()\n        except Exception:\n            bad_entities = []\n"))
B("P28", GM, ("        bad_entities = gmsh.model.mesh.getLastEntityError()\n", "        try:\n            bad_entities = gmsh.model.mesh.getLastEntityError()\n        except Exception:\n            pass\n"))
K("P28", PG, ("            mid_pt = seg.vtxs[in_vtx]\n            new_seg = seg\n        else:\n            xy_point = seg.parametric(t)\n            mid_pt = self._add_point(xy_point, self.decomp.outer_polygon)\n            new_seg = self._split_segment(seg, mid_pt)\n",
   "            mid_pt = seg.vtxs[in_vtx]\n            new_seg = seg\n        else:\n            mid_pt = None\n        if mid_pt is None:\n            xy_point = seg.parametric(t)\n            mid_pt = self._add_point(xy_point, self.decomp.outer_polygon)\n            new_seg = self._split_segment(seg, mid_pt)\n"))
K("P28", PG, ("            mid_pt = seg.vtxs[in_vtx]\n            new_seg = seg\n        else:\n            xy_point = seg.parametric(t)\n            mid_pt = self._add_point(xy_point, self.decomp.outer_polygon)\n            new_seg = self._split_segment(seg, mid_pt)\n",
   "            mid_pt = seg.vtxs[in_vtx]\n            new_seg = seg\n        else:\n            def middle(t=t):\n                return seg.parametric(t)\n            mid_pt = self._add_point(middle(), self.decomp.outer_polygon)\n            new_seg = self._split_segment(seg, mid_pt)\n"))
K("P28", HM, ("        for n in self.mesh.nodes.values():\n            aabb_max = np.maximum(aabb_max, n)\n            aabb_min = np.minimum(aabb_min, n)\n        diam = np.max(aabb_max - aabb_min)\n", "        for n in self.mesh.nodes.values():\n            hi = np.maximum(aabb_max, n)\n            lo = np.minimum(aabb_min, n)\n            aabb_max, aabb_min = hi, lo\n        diam = np.max(hi - lo) if self.mesh.nodes else 0.0\n"))
K("P28", HM, ("        hist, bins, bad_els = self.quality_statistics(bad_el_tol=el_tol)\n        output", "        opts = dict(bad_el_tol=el_tol)\n        hist, bins, bad_els = self.quality_statistics(**opts)\n        output"))
K("P28", PG, ("        for seg_id in candidates:\n            seg = self.segments[seg_id]\n            (t0, t1)", "        for seg_id in candidates:\n            if (seg := self.segments.get(seg_id)) is None:\n                continue\n            (t0, t1)"))
# ---------------------------------------------------------------- P16
ICS, ISS, SPT = "bspline/isec_curve_surf.py", "bspline/isec_surf_surf.py", "bspline/surface_point.py"
B("P16", BS, ("        u_basis = SplineBasis(degree[0], knots[0])", "        u_basis = SplineBasis(degree[1], knots[0])"))
B("P16", BS, ("        return cls((u_basis, v_basis), poles, rational)", "        return cls((v_basis, u_basis), poles, rational)"))
B("P16", BS, ("self.poles[iu: iu + du, iv: iv + dv, :].T )\n            #print(\"val", "self.poles[iu: iu + dv, iv: iv + du, :].T )\n            #print(\"val"))
B("P16", BS, ("            bot_value = np.inner(u_base_vec, self._weights[iu: iu + du, iv: iv + dv].T)\n            bot_value = np.inner(bot_value, v_base_vec)",
              "            bot_value = np.inner(v_base_vec, self._weights[iu: iu + du, iv: iv + dv].T)\n            bot_value = np.inner(bot_value, u_base_vec)"))
B("P16", BS, ("        u = self.u_basis.check(u)\n        v = self.v_basis.check(v)\n        iu = self.u_basis.find_knot_interval(u)\n        iv = self.v_basis.find_knot_interval(v)",
              "        u = self.u_basis.check(u)\n        v = self.u_basis.check(v)\n        iu = self.u_basis.find_knot_interval(u)\n        iv = self.v_basis.find_knot_interval(v)"))
B("P16", BS, ("self.poles[iu: iu + du, iv: iv + dv, 0:self.dim]", "self.poles[iv: iv + du, iu: iu + dv, 0:self.dim]"))
B("P16", BS, ("        id = iu * self.v_basis.n_intervals + iv", "        id = iu * self.u_basis.n_intervals + iv"))
B("P16", BS, ("        id = iu * self.v_basis.n_intervals + iv", "        id = iv * self.u_basis.n_intervals + iu"))
B("P16", BS, ("        iu = int(np.floor(patch_id / self.v_basis.n_intervals))\n        iv = int(patch_id - (iu * self.v_basis.n_intervals))",
              "        iu = int(np.floor(patch_id / self.u_basis.n_intervals))\n        iv = int(patch_id - (iu * self.u_basis.n_intervals))"))
B("P16", BS, ("        iu = int(np.floor(patch_id / self.v_basis.n_intervals))\n        iv = int(patch_id - (iu * self.v_basis.n_intervals))",
              "        iv, iu = divmod(int(patch_id), self.u_basis.n_intervals)"))
B("P36", BS, ("        for iu in range(self.u_basis.n_intervals):\n            for iv in range(self.v_basis.n_intervals):", "        for iv in range(self.v_basis.n_intervals):\n            for iu in range(self.u_basis.n_intervals):"),
  ("                assert len(boxes) == self.patch_pos2id(iu, iv)\n", ""))
B("P16", BS, ("        V, U = np.meshgrid(v,u)\n", "        U, V = np.meshgrid(u,v)\n"))
B("P16", BS, (".reshape(U.shape[0], U.shape[1], 2)", ".reshape(U.shape[1], U.shape[0], 2)"))
B("P16", BS, ("        uv_poles_vec = np.stack([U.ravel(), V.ravel()], axis=1)", "        uv_poles_vec = np.stack([V.ravel(), U.ravel()], axis=1)"))
B("P16", BS, ("            v_vec = self.quad[0] - self.quad[1]\n            u_vec = self.quad[2] - self.quad[1]", "            u_vec = self.quad[0] - self.quad[1]\n            v_vec = self.quad[2] - self.quad[1]"))
B("P16", BS, ("            self._xy_shift = self.quad[1]\n", "            self._xy_shift = self.quad[0]\n"))
B("P16", BS, ("[ (1-u)*v, (1-u)*(1-v), u*(1-v), u*v ]", "[ u*(1-v), (1-u)*(1-v), (1-u)*v, u*v ]"))
B("P16", BS, ("        self._uv_step = (1.0 / float(self.shape[0] - 1), 1.0 / float(self.shape[1] - 1))", "        self._uv_step = (1.0 / float(self.shape[1] - 1), 1.0 / float(self.shape[0] - 1))"))
B("P16", BS, ("        self._u_step = diff[1] / (nu-1)      # v10 - v00\n        self._v_step = diff[2] / (nv-1)", "        self._u_step = diff[1] / (nv-1)      # v10 - v00\n        self._v_step = diff[2] / (nu-1)"))
B("P16", BS, ("        self._u_step = diff[1] / (nu-1)      # v10 - v00\n        self._v_step = diff[2] / (nv-1)", "        self._u_step = diff[2] / (nu-1)      # v10 - v00\n        self._v_step = diff[1] / (nv-1)"))
B("P16", BS, ("        vtx_01 = xy_points[nv - 1, :]\n        vtx_10 = xy_points[-nv, :]", "        vtx_01 = xy_points[nu - 1, :]\n        vtx_10 = xy_points[-nu, :]"))
B("P16", BS, ("        vtx_01 = xy_points[nv - 1, :]\n        vtx_10 = xy_points[-nv, :]", "        vtx_10 = xy_points[nv - 1, :]\n        vtx_01 = xy_points[-nv, :]"))
B("P16", BS, ("            pred_x = i - nv\n            if i%nv == 0", "            pred_x = i - nu\n            if i%nv == 0"))
B("P16", BS, ("- points_xy[pred_x, :] - self._u_step)", "- points_xy[pred_x, :] - self._v_step)"), ("- points_xy[pred_y, :] - self._v_step)", "- points_xy[pred_y, :] - self._u_step)"))
B("P16", BS, ("        u_basis = SplineBasis.make_equidistant(1, nu - 1)\n        v_basis = SplineBasis.make_equidistant(1, nv - 1)", "        u_basis = SplineBasis.make_equidistant(1, nv - 1)\n        v_basis = SplineBasis.make_equidistant(1, nu - 1)"),
  ("points[:, 2].reshape(nu, nv, 1)", "points[:, 2].reshape(nv, nu, 1)"))
B("P16", BS, ("points[:, 2].reshape(nu, nv, 1)", "points[:, 2].reshape(nv, nu, 1).transpose(1, 0, 2)"))
B("P16", BS, ("        grid_uv = uv_points.reshape(nu, nv, 2)", "        grid_uv = uv_points.reshape(nv, nu, 2)"))
B("P16", BS, ("            iu = max(0, min(self.shape[0] - 2, int(iuv[0])))\n            iv = max(0, min(self.shape[1] - 2, int(iuv[1])))", "            iu = max(0, min(self.shape[1] - 2, int(iuv[0])))\n            iv = max(0, min(self.shape[0] - 2, int(iuv[1])))"))
B("P16", BS, ("u_loc.dot(Z_mat).dot(v_loc)", "v_loc.dot(Z_mat).dot(u_loc)"))
B("P16", BS, ("            v_loc = np.array([1 - uv_loc[1], uv_loc[1]])", "            v_loc = np.array([1 - uv_loc[1], uv_loc[0]])"))
B("P16", BS, ("            uv_loc = uv / self._uv_step - iuv\n", "            uv_loc = uv / self._uv_step - iuv[::-1]\n"))
B("P16", BS, ("    Y, X = np.meshgrid(Y_grid, X_grid)", "    X, Y = np.meshgrid(X_grid, Y_grid)"))
B("P16", BS, ("        u_basis = copy.copy(self.u_basis)\n        v_basis = copy.copy(self.v_basis)", "        u_basis = copy.copy(self.u_basis)\n        v_basis = copy.copy(self.u_basis)"))
B("P16", BA, ("        u_vec = self.quad[2, :] - self.quad[1, :]\n        mat_uv_to_xy = np.column_stack((u_vec, v_vec))", "        u_vec = self.quad[2, :] - self.quad[1, :]\n        mat_uv_to_xy = np.column_stack((v_vec, u_vec))"))
B("P16", BA, ("        nv = np.sqrt( n_points * dv / du )\n        nu = nv * du / dv", "        nv = np.sqrt( n_points * du / dv )\n        nu = nv * dv / du"))
B("P16", BA, ("np.array( [np.floor(nu / 3), np.floor(nv / 3)] )", "np.array( [np.floor(nv / 3), np.floor(nu / 3)] )"))
B("P16", BA, ("        self._u_basis = bs.SplineBasis.make_equidistant(2, self.nuv[0])\n        self._v_basis = bs.SplineBasis.make_equidistant(2, self.nuv[1])", "        self._u_basis = bs.SplineBasis.make_equidistant(2, self.nuv[1])\n        self._v_basis = bs.SplineBasis.make_equidistant(2, self.nuv[0])"))
B("P16", BA, ("z_vec.reshape(self._v_basis.size, self._u_basis.size).T", "z_vec.reshape(self._u_basis.size, self._v_basis.size)"))
B("P16", BA, ("z_vec.reshape(self._v_basis.size, self._u_basis.size).T", "z_vec.reshape(self._u_basis.size, self._v_basis.size).T"))
B("P16", BA, ("                    col_item = (iv + n) * u_n_basf + iu + m", "                    col_item = (iv + n) * v_n_basf + iu + m"))
B("P16", BA, ("                    col_item = (iv + n) * u_n_basf + iu + m", "                    col_item = (iu + n) * v_n_basf + iv + m"))
B("P16", BA, ("                    col_item = (iv + n) * u_n_basf + iu + m", "                    col_item = (iv + m) * u_n_basf + iu + n"))
B("P16", BA, ("= v_base_vec[n] * u_base_vec", "= u_base_vec[n] * v_base_vec"))
B("P16", BA, ("                iuv = iu + iv * u_n_basf", "                iuv = iu + iv * v_n_basf"))
B("P16", BA, ("        iuv_local = (u_n_basf * i_local", "        iuv_local = (v_n_basf * i_local"))
B("P16", BA, ("                v_du = np.kron(v_val_outer_loc, du_val_outer_loc)\n                dv_u = np.kron(dv_val_outer_loc, u_val_outer_loc)", "                v_du = np.kron(du_val_outer_loc, v_val_outer_loc)\n                dv_u = np.kron(u_val_outer_loc, dv_val_outer_loc)"))
B("P16", BA, ("                dv_u = np.kron(dv_val_outer_loc, u_val_outer_loc)", "                dv_u = np.kron(dv_val_outer_loc, v_val_outer_loc)"))
B("P16", BA, ("        v_val_outer, v_diff_val_outer, q_v_point = self._basis_in_q_points(self._v_basis)", "        v_val_outer, v_diff_val_outer, q_v_point = self._basis_in_q_points(self._u_basis)"))
B("P37", BA, ("    poles = [ [vtxs[0],  mid(0, 3), vtxs[3]],\n                [mid(0,1), mid(0,1,2,3), mid(2,3)],\n                [vtxs[1], mid(1,2), vtxs[2]]", "    poles = [ [vtxs[0],  mid(0, 1), vtxs[1]],\n                [mid(0,3), mid(0,1,2,3), mid(1,2)],\n                [vtxs[3], mid(2,3), vtxs[2]]"))
B("P16", BW, ("    s = Surface(surf.poles, (surf.u_basis.pack_knots(), surf.v_basis.pack_knots()),", "    s = Surface(surf.poles, (surf.v_basis.pack_knots(), surf.u_basis.pack_knots()),"))
B("P16", BW, ("(surf.u_basis.degree, surf.v_basis.degree) )", "(surf.v_basis.degree, surf.u_basis.degree) )"))
B("P16", BW, ("        check_knots(degree[0], u_knots, self.Nu)\n        check_knots(degree[1], v_knots, self.Nv)", "        check_knots(degree[0], u_knots, self.Nv)\n        check_knots(degree[1], v_knots, self.Nu)"))
B("P16", BW, ("format(self.Nu, self.Nv, len(u_knots), len(v_knots))", "format(self.Nu, self.Nv, len(v_knots), len(u_knots))"))
B("P16", BW, ("format(self.Nu, self.Nv, len(u_knots), len(v_knots))", "format(self.Nv, self.Nu, len(u_knots), len(v_knots))"))
B("P16", ICS, ("        surf_poles = surf.poles[iu:iu + 3, iv:iv + 3, :]", "        surf_poles = surf.poles[iv:iv + 3, iu:iu + 3, :]"))
B("P16", ICS, ("        vfd = surf.v_basis.eval_diff_vector(iv, uvt[1])", "        vfd = surf.v_basis.eval_diff_vector(iv, uvt[0])"))
B("P16", ICS, ("        dxyz1v = surf_poles.T @ uf @ vfd", "        dxyz1v = surf_poles.T @ vfd @ uf"))
B("P16", ICS, ("J = np.column_stack((dxyz1u, dxyz1v, -dxyz2t))", "J = np.column_stack((dxyz1v, dxyz1u, -dxyz2t))"))
B("P16", ICS, ("max_bounds = np.array([self.surf.u_basis.knots[iu + 3], self.surf.v_basis.knots[iv + 3],", "max_bounds = np.array([self.surf.u_basis.knots[iu + 3], self.surf.v_basis.knots[iu + 3],"))
B("P16", ICS, ("                    iuv_b = np.array([iu2, iv2])", "                    iuv_b = np.array([iv2, iu2])"))
B("P16", ICS, ("                    uv_b = uvt[0:2]", "                    uv_b = uvt[1::-1]"))
B("P16", ISS, ("            fix_basis = surf.u_basis\n            curv_basis = surf.v_basis\n        elif", "            fix_basis = surf.v_basis\n            curv_basis = surf.u_basis\n        elif"))
B("P16", ISS, ("            curv = bs.Curve(curv_basis, curv_pol)", "            curv = bs.Curve(fix_basis, curv_pol)"))
B("P16", ISS, ("axes=([0], [axis])", "axes=([0], [1 - axis])"))
B("P16", ISS, ("                            uv_a[axis] = w_val[curve_id]\n                            uv_a[1 - axis] = uvt[2]", "                            uv_a[1 - axis] = w_val[curve_id]\n                            uv_a[axis] = uvt[2]"))
B("P16", ISS, ("                            iuv_a[axis] = patch[curve_id]\n                            iuv_a[1 - axis] = it", "                            iuv_a[1 - axis] = patch[curve_id]\n                            iuv_a[axis] = it"))
B("P16", SPT, ("        ti[1, 0:2] = self.surf.v_basis.knots[self.iuv[0][1] + 2:self.iuv[0][1] + 4]", "        ti[1, 0:2] = self.surf.v_basis.knots[self.iuv[0][0] + 2:self.iuv[0][0] + 4]"))
B("P16", SPT, ("            iuv[0] = self.iuv[0][0]\n            iuv[1] = self.iuv[0][1] + self.interface_flag[1]\n            self.iuv.append(iuv)\n            n = n + 1", "            iuv[0] = self.iuv[0][0]\n            iuv[1] = self.iuv[0][1] + self.interface_flag[0]\n            self.iuv.append(iuv)\n            n = n + 1"))
B("P16", "bspline/bspline_plot.py", ("        points = np.stack( [U.ravel(), V.ravel()], axis = 1 )\n\n        xyz = surface.eval_array(points)\n        X, Y, Z = xyz.T\n\n        X = X", "        points = np.stack( [V.ravel(), U.ravel()], axis = 1 )\n\n        xyz = surface.eval_array(points)\n        X, Y, Z = xyz.T\n\n        X = X"))
K("P16", BS, ("        id = iu * self.v_basis.n_intervals + iv", "        nv = self.v_basis.n_intervals\n        id = iv + nv * iu"))
K("P16", BS, ("        iu = int(np.floor(patch_id / self.v_basis.n_intervals))\n        iv = int(patch_id - (iu * self.v_basis.n_intervals))\n\n        return iu, iv", "        pos = divmod(int(patch_id), self.v_basis.n_intervals)\n        return pos"))
K("P16", BS, ("        id = iu * self.v_basis.n_intervals + iv", "        id = iv * self.u_basis.n_intervals + iu"),
  ("        iu = int(np.floor(patch_id / self.v_basis.n_intervals))\n        iv = int(patch_id - (iu * self.v_basis.n_intervals))", "        iv, iu = divmod(int(patch_id), self.u_basis.n_intervals)"),
  ("        for iu in range(self.u_basis.n_intervals):\n            for iv in range(self.v_basis.n_intervals):", "        for iv in range(self.v_basis.n_intervals):\n            for iu in range(self.u_basis.n_intervals):"))
K("P16", BS, ("            value = np.inner(u_base_vec, self.poles[iu: iu + du, iv: iv + dv, :].T )", "            local = self.poles[iu: iu + du, iv: iv + dv, :]\n            value = np.tensordot(u_base_vec, local, axes=(0, 0)).T"))
K("P16", BS, ("            value = np.inner(u_base_vec, self.poles[iu: iu + du, iv: iv + dv, :].T )", "            local = self.poles[iu: iu + du, iv: iv + dv, :]\n            return np.einsum('i,j,ijk->k', u_base_vec, v_base_vec, local)\n            value = None"))
K("P16", BS, ("        V, U = np.meshgrid(v,u)\n", "        U, V = np.meshgrid(u, v, indexing='ij')\n"))
K("P16", BS, ("        u_base_vec = self.u_basis.eval_vector(iu, u)\n        v_base_vec = self.v_basis.eval_vector(iv, v)", "        u_base_vec, v_base_vec = [b.eval_vector(i, t) for b, i, t in zip(self.basis, (iu, iv), (u, v))]"))
K("P16", BS, ("            weights = np.array([ (1-u)*v, (1-u)*(1-v), u*(1-v), u*v ])", "            uu, vv = 1 - u, 1 - v\n            weights = np.array([uu * v, uu * vv, u * vv, u * v])"))
K("P16", BS, ("            u_loc = np.array([1 - uv_loc[0], uv_loc[0]])\n            v_loc = np.array([1 - uv_loc[1], uv_loc[1]])", "            a, b = uv_loc\n            u_loc, v_loc = np.array([1 - a, a]), np.array([1 - b, b])"))
K("P16", BA, ("                iuv = iu + iv * u_n_basf", "                first_row = iv * u_n_basf\n                iuv = first_row + iu"))
K("P16", BA, ("            for n in range(0, 3):\n                data[nnz_b + 3 * n:nnz_b + 3 * (n + 1)] = v_base_vec[n] * u_base_vec\n                for m in range(0, 3):\n                    col_item = (iv + n) * u_n_basf + iu + m\n                    col[nnz_b + (3 * n) + m] = col_item",
  "            data[nnz_b:nnz_b + 9] = np.outer(v_base_vec, u_base_vec).ravel()\n            loc = np.arange(3)\n            col[nnz_b:nnz_b + 9] = ((iv + loc[:, None]) * u_n_basf + iu + loc[None, :]).ravel()"))
K("P16", ISS, ("        if axis == IP.Axis.u:\n            fix_basis = surf.u_basis\n            curv_basis = surf.v_basis\n        elif axis == IP.Axis.v:\n            fix_basis = surf.v_basis\n            curv_basis = surf.u_basis", "        fix_basis = surf.basis[axis]\n        curv_basis = surf.basis[1 - axis]"))
K("P16", BA, ("        v_vec = self.quad[0, :] - self.quad[1, :]\n        u_vec = self.quad[2, :] - self.quad[1, :]\n        mat_uv_to_xy = np.column_stack((u_vec, v_vec))", "        corner_v, origin, corner_u = self.quad[:3]\n        mat_uv_to_xy = np.array([corner_u - origin, corner_v - origin]).T"))
K("P16", BS, ("    def eval_array(self, uv_points):\n        xyz = self.z_surface", "    @staticmethod\n    def _swap(a, b):\n        return b, a\n\n    def eval_array(self, uv_points):\n        xyz = self.z_surface"))

# texts of actions, completion of regions
B("P02", "undo.py", ("            self._text = rets[0]\n            return rets[1:]", "            return rets[1:]"))
B("P02", "undo.py", ("            self._text = rets[0]\n            return rets[1:]", "            self._text = rets[0]\n            return rets"))
B("P02", "undo.py", ("            self._text = rets[0]\n", "            self._text = rets[-1]\n"))
B("P02", "undo.py", ("            self._text = rets\n            return None", "            self._text = ''\n            return rets"))
B("P02", "undo.py", ("return self._desc.format(count=len(self._stack))", "return self._desc"))
K("P02", "undo.py", ("""        if isinstance(rets, tuple):
            self._text = rets[0]
            return rets[1:]
        elif rets is None:
            self._text = ''
            return None
        else:
            self._text = rets
            return None
""", """        if not isinstance(rets, tuple):
            self._text = '' if rets is None else rets
            return None
        self._text, *rest = rets
        return tuple(rest)
"""))
B("P24", "gmsh/gmsh.py", ("        if self.dim is None:\n            self.dim = dim\n        else:\n            assert self.dim == dim, (self.dim, dim)\n", "        assert self.dim == dim, (self.dim, dim)\n"))
B("P29", "gmsh/gmsh_io.py", ("        for name in sorted(self.physical.keys()):\n", "        for name in set(self.physical.keys()):\n"))
B("P30", "bspline/bspline.py", ("""        if self._boxes == None:
            self.bounding_boxes()
        return self._boxes

    @property
    def tree(self):
        if self._tree == None:
            self.bounding_boxes()
        return self._tree

class Surface""", """        if self._boxes:
            self.bounding_boxes()
        return self._boxes

    @property
    def tree(self):
        if self._tree == None:
            self.bounding_boxes()
        return self._tree

class Surface"""))
B("P16", BA, ("u_basis, v_basis = grid_surface.u_basis, grid_surface.v_basis", "u_basis, v_basis = grid_surface.u_basis, grid_surface.u_basis"))
for _i, _k in (("t > 0", B), ("t < self.domain[0]", B), ("t > self.domain[1]", K), ("t > self.domain[0]", K), ("not t < self.domain[1]", K)):
    _k("P19", BS, ("            if t < self.domain[0]:\n                return self.domain[0]\n            else:\n                return self.domain[1]\n", "            return self.domain[int(%s)]\n" % _i))
B("P02", "undo.py", ("        self._outer_receiver = stack()._receiver\n        stack().setreceiver(self._stack)\n", "        stack().setreceiver(self._stack)\n        self._outer_receiver = stack()._receiver\n"))
K("P02", "undo.py", ("        self._outer_receiver = stack()._receiver\n        stack().setreceiver(self._stack)\n", "        st = stack()\n        outer = st._receiver\n        st.setreceiver(self._stack)\n        self._outer_receiver = outer\n"))
B("P02", "undo.py", ("        self._outer_receiver = stack()._receiver\n        stack().setreceiver(self._stack)\n", "        st = stack()\n        st.setreceiver(self._stack)\n        self._outer_receiver = st._receiver\n"))
B("P06", DC, ("            keep_wire = new_seg.wire[keep_wire_side]\n            rm_wire = new_seg.wire[1 - keep_wire_side]\n            parent_wire = keep_wire\n", "            keep_wire = new_seg.wire[keep_wire_side]\n            rm_wire = new_seg.wire[1 - keep_wire_side]\n            parent_wire = keep_wire.parent\n"))
B("P06", DC, ("            parent_wire = keep_wire.parent  # parent", "            parent_wire = keep_wire  # parent"))
B("P06", DC, ("                hole_wire.set_parent(new_poly.outer_wire)\n", "                hole_wire.set_parent(left_wire)\n"))
B("P33", DC, ("        mid_point.set_polygon(seg0.wire[left_side].polygon) # any side\n", "        mid_point.set_polygon(self.outer_polygon) # any side\n"))
K("P33", DC, ("        mid_point.set_polygon(seg0.wire[left_side].polygon) # any side\n", "        beside = seg0.polygons()\n        mid_point.set_polygon(beside[0])\n"))
B("P34", DC, ("            seg0.connect_free_vtx(seg0_in_vtx, seg0.wire[out_vtx])", "            seg0.connect_free_vtx(seg0_out_vtx, seg0.wire[out_vtx])"))
B("P04", DC, ("        segment = self.pt_to_seg.get((b_pt.id, a_pt.id), None)\n        if segment is not None:\n", "        segment = self.pt_to_seg.get((b_pt.id, a_pt.id), None)\n        if segment is not None and segment.is_dendrite():\n"))
B("P09", MG, ("[outer_wire] + list(outer_wire.childs)", "[outer_wire]"))
B("P09", MG, ("[outer_wire] + list(outer_wire.childs)", "list(outer_wire.childs)"))
K("P09", MG, ("                for wire in [outer_wire] + list(outer_wire.childs):\n", "                for wire in (outer_wire, *outer_wire.childs):\n"))
K("P09", MG, ("[outer_wire] + list(outer_wire.childs)", "[w for w in decomp.wires.values() if w.polygon.id == p_id]"))

# ---- P36
B("P36", BS, ("        poles = self.poles[:, :, 0:self.dim]\n        return np.array", "        poles = self.poles[:, 1:, 0:self.dim]\n        return np.array"))
B("P36", BS, ("        poles = self.poles[:, 0:self.dim]\n        return np.array", "        poles = self.poles\n        return np.array"))
B("P36", BS, ("np.array( [np.amin(poles, axis=(0,1)), np.amax(poles, axis=(0,1))] )", "np.array( [np.amin(poles, axis=(0,1)), np.amax(poles[-1], axis=0)] )"))
B("P36", BS, ("np.array( [np.amin(poles, axis=0), np.amax(poles, axis=0)] )", "np.array( [np.amin(poles[[0, -1]], axis=0), np.amax(poles, axis=0)] )"))
B("P36", BS, ("        n_poles = self.basis.degree + 1\n", "        n_poles = 3\n"))
B("P36", BS, ("        n_poles = self.basis.degree + 1\n", "        n_poles = self.basis.degree\n"))
B("P36", BS, ("        du = self.u_basis.degree + 1\n        dv = self.v_basis.degree + 1\n\n        boxes", "        du = self.u_basis.degree + 1\n        dv = self.u_basis.degree + 1\n\n        boxes"))
B("P36", BS, ("for iv in range(self.v_basis.n_intervals):", "for iv in range(self.v_basis.n_intervals - 1):"))
B("P36", BS, ("self.poles[iu: iu + du, iv: iv + dv, 0:self.dim]", "self.poles[max(0, iu - 1): max(0, iu - 1) + du, iv: iv + dv, 0:self.dim]"))
B("P36", BS, ("        id = iu * self.v_basis.n_intervals + iv\n", "        id = iv * self.u_basis.n_intervals + iu\n"))
B("P36", BS, ("iu = int(np.floor(patch_id / self.v_basis.n_intervals))", "iu = int(np.ceil(patch_id / self.v_basis.n_intervals))"))
B("P36", BS, ("xyz_box[1, 0:2] = np.amax(self.quad, axis=0)", "xyz_box[1, 0:2] = np.amax(self.quad[:3], axis=0)"))
B("P36", BS, ("xyz_box[1, 0:2] = np.amax(self.quad, axis=0)", "xyz_box[1, 0:2] = self.quad[3]"))
K("P36", BS, ("        n_poles = self.basis.degree + 1\n        boxes = [bih.AABB(self.poles[it:it + n_poles, 0:self.dim].tolist()) for it in range(self.basis.n_intervals)]\n",
              "        boxes = []\n        for it in range(self.basis.n_intervals):\n            last = it + self.basis.degree\n            boxes.append(bih.AABB([p[:self.dim] for p in self.poles[it:last + 1].tolist()]))\n"))
K("P36", BS, ("                patch_poles = self.poles[iu: iu + du, iv: iv + dv, 0:self.dim]\n                boxes.append(bih.AABB(patch_poles.reshape(du * dv, self.dim).tolist()))",
              "                pp = [self.poles[iu + i, iv + j, 0:self.dim].tolist() for i in range(du) for j in range(dv)]\n                boxes.append(bih.AABB(pp))"))
K("P36", BS, ("np.array( [np.amin(poles, axis=(0,1)), np.amax(poles, axis=(0,1))] )", "np.stack([poles.reshape(-1, self.dim).min(axis=0), poles.reshape(-1, self.dim).max(axis=0)])"))
K("P36", BS, ("        iu = int(np.floor(patch_id / self.v_basis.n_intervals))\n        iv = int(patch_id - (iu * self.v_basis.n_intervals))", "        iu, iv = divmod(int(patch_id), self.v_basis.n_intervals)"))

# ---- P37
B("P37", BW, ("            vv = vtxs[1] + vtxs[2] - vtxs[0]\n        vtx4" if False else "        vv = vtxs[1] + vtxs[2] - vtxs[0]\n", "        vv = vtxs[0] + vtxs[2] - vtxs[1]\n"))
B("P37", BW, ("[ vtxs_uv[0], vtxs_uv[1], vtxs_uv[3] ]", "[ vtxs_uv[0], vtxs_uv[1], vtxs_uv[2] ]"))
B("P37", BW, ("vtxs_uv = [ (0, 0), (1, 0), (1, 1), (0, 1) ]", "vtxs_uv = [ (0, 0), (0, 1), (1, 1), (1, 0) ]"))
B("P37", BW, ("[mid(0,1), mid(0,1,2,3), mid(2,3)],", "[mid(0,3), mid(0,1,2,3), mid(2,3)],"))
B("P37", BW, ("        mid = np.mean(vtxs, axis=0)\n", "        mid = vtxs[0]\n"))
B("P37", BA, ("    vtx4 = [ vtxs[0], vtxs[1], vv, vtxs[2]]", "    vtx4 = [ vtxs[0], vtxs[2], vv, vtxs[1]]"))
B("P37", BA, ("        vtxs[0] -= dv\n        vtxs[1] += dv\n", "        vtxs[0] -= dv\n        vtxs[1] += overhang*(vtxs[1] - vtxs[0])\n"))
B("P37", BA, ("    knots = 3*[0.0 - overhang] + 3*[1.0 + overhang]\n", "    knots = 3*[0.0] + 3*[1.0]\n"))
B("P37", BA, ("        vtxs +=  np.roll(dv, 1, axis=0) - dv\n", "        vtxs +=  np.roll(dv, -1, axis=0) - dv\n"))
B("P37", BS, ("weights = np.array([ (1-u)*v, (1-u)*(1-v), u*(1-v), u*v ])", "weights = np.array([ (1-u)*v, (1-u)*(1-v), u*v, u*(1-v) ])"))
B("P37", BS, ("            self._mat_uv_to_xy = np.column_stack((u_vec, v_vec))", "            self._mat_uv_to_xy = np.stack((u_vec, v_vec))"))
B("P37", BS, ("            v_vec = self.quad[0] - self.quad[1]\n", "            v_vec = self.quad[3] - self.quad[1]\n"))
B("P37", BS, ("        v11 = xy_quad[0] + xy_quad[2] - xy_quad[1]\n", "        v11 = xy_quad[0] + xy_quad[1] - xy_quad[2]\n"))
B("P37", BS, ("            self._mat_xy_to_uv = la.inv(self._mat_uv_to_xy)\n            # transform quad", "            # transform quad"))
B("P37", BS, ("np.dot(self.quad - quad_center, xy_mat[0:2,0:2].T)", "np.dot(self.quad - quad_center, xy_mat[0:2,0:2])"))
B("P37", BS, ("np.dot(xy_mat[0:2,0:2], (self._xy_shift - quad_center)) + quad_center", "np.dot(xy_mat[0:2,0:2], (self._xy_shift - quad_center))"))
B("P37", BS, ("            self._mat_uv_to_xy = np.dot(xy_mat[0:2,0:2], self._mat_uv_to_xy)", "            self._mat_uv_to_xy = np.dot(self._mat_uv_to_xy, xy_mat[0:2,0:2])"))
B("P37", BS, ("np.dot((xy_points - self._xy_shift), self._mat_xy_to_uv.T)", "np.dot((xy_points - self._xy_shift), self._mat_xy_to_uv)"))
B("P37", BS, ("        V, U = np.meshgrid(v,u)\n", "        U, V = np.meshgrid(v,u)\n"))
B("P37", BS, ("            z_poles *= self._z_mat[0]\n            z_poles += self._z_mat[1]\n        poles", "            z_poles += self._z_mat[1]\n            z_poles *= self._z_mat[0]\n        poles"))
K("P37", BS, ("        V, U = np.meshgrid(v,u)\n", "        U, V = np.meshgrid(u, v, indexing='ij')\n"))
K("P37", BS, ("            xy_list.append( self.quad.T.dot(weights) )", "            xy_list.append( np.dot(weights, self.quad) )"))
K("P37", BS, ("            self._mat_uv_to_xy = np.column_stack((u_vec, v_vec))", "            self._mat_uv_to_xy = np.array([u_vec, v_vec]).T"))
K("P37", BA, ("    mid = np.mean(vtxs, axis=0)\n", "    mid = 0.5 * (vtxs[0] + vtxs[1])\n"))
K("P37", BA, ("        vtxs[0] -= dv\n        vtxs[1] += dv\n", "        vtxs = np.array([vtxs[0] - dv, vtxs[1] + dv])\n"))

# ---- P38
B("P38", BW, ("        return ShapeRef(self, Orient.Internal)\n", "        return ShapeRef(self, Orient.External)\n"))
B("P38", BW, ("        return ShapeRef(self, Orient.Reversed)\n", "        return ShapeRef(self)\n"))
K("P38", BW, ("        return ShapeRef(self, Orient.Forward)\n", "        return ShapeRef(self)\n"))
K("P38", BW, ("        return ShapeRef(self, Orient.Reversed)\n", "        ref = ShapeRef(self, orient=Orient.Reversed)\n        return ref\n"))
B("P38", BW, ("        self.childs[1].orientation = Orient.Reversed\n", ""))
B("P38", BW, ("        self.childs[1].orientation = Orient.Reversed\n", "        self.childs[1].orientation = Orient.Forward\n"))
B("P38", BW, ("        self.childs[0].orientation = Orient.Forward\n        self.childs[1].orientation = Orient.Reversed\n", "        self.childs[1].orientation = Orient.Forward\n        self.childs[0].orientation = Orient.Reversed\n"))
K("P38", BW, ("        self.childs[0].orientation = Orient.Forward\n        self.childs[1].orientation = Orient.Reversed\n", "        first, second = self.childs\n        second.orientation = Orient.Reversed\n        first.orientation = Orient.Forward\n"))
B("P38", BW, ("            if vtx.n_edges % 2 != 0:\n", "            if vtx.n_edges < 2:\n"))
B("P38", BW, ("            if vtx.n_edges % 2 != 0:\n", "            if vtx.n_edges % 2 == 0:\n"))
B("P38", BW, ("            if vtx.n_edges % 2 != 0:\n                closed = False\n            vtx.n_edges = 0\n", "            if vtx.n_edges % 2 != 0:\n                closed = False\n                break\n            vtx.n_edges = 0\n"))
B("P38", BW, ("            if vtx.n_edges % 2 != 0:\n                closed = False\n            vtx.n_edges = 0\n", "            closed = vtx.n_edges % 2 == 0\n            vtx.n_edges = 0\n"))
B("P38", BW, ("                closed = False\n            vtx.n_edges = 0\n", "                closed = False\n                vtx.n_edges = 0\n"))
B("P38", BW, ("        self.flags.set('closed', closed)\n", "        self.flags.set('closed', not closed)\n"))
B("P38", BW, ("                vtx.n_edges += 1\n", "                vtx.n_edges = 1\n"))
K("P38", BW, ("            if vtx.n_edges % 2 != 0:\n                closed = False\n            vtx.n_edges = 0\n", "            if vtx.n_edges % 2 == 1:\n                closed = False\n            vtx.n_edges = 0\n"))
K("P38", BW, ("        closed = True\n        for vtx in vtx_set.keys():\n            if vtx.n_edges % 2 != 0:\n                closed = False\n            vtx.n_edges = 0\n        self.flags.set('closed', closed)\n", "        odd = False\n        for vtx in vtx_set:\n            if vtx.n_edges % 2:\n                odd = True\n            vtx.n_edges = 0\n        self.flags['closed'] = 0 if odd else 1\n"))
K("P38", BW, ("        closed = True\n        for vtx in vtx_set.keys():\n            if vtx.n_edges % 2 != 0:\n                closed = False\n            vtx.n_edges = 0\n", "        closed = all(vtx.n_edges % 2 == 0 for vtx in vtx_set)\n        for vtx in vtx_set:\n            vtx.n_edges = 0\n"))
K("P38", BW, ("        closed = True\n        for vtx in vtx_set.keys():\n            if vtx.n_edges % 2 != 0:\n                closed = False\n            vtx.n_edges = 0\n", "        closed = True\n        for vtx in vtx_set.keys():\n            closed = closed and vtx.n_edges % 2 == 0\n            vtx.n_edges = 0\n"))
B("P38", BW, ("            self.repr=[(surface, location)]\n", "            self.repr=[(surface, Location())]\n"))
B("P38", BW, ("            if not wire.is_closed():\n                raise Exception(\"Trying to make face from non-closed wire.\")\n", "            pass\n"))
B("P38", BW, ("            if not wire.is_closed():\n                raise Exception(\"Trying to make face from non-closed wire.\")\n", "            if wire.is_closed():\n                break\n            raise Exception(\"Trying to make face from non-closed wire.\")\n"))
B("P38", BW, ("        for k in self.flag_names:\n            stream", "        for k in sorted(self.flag_names):\n            stream"))
K("P38", BW, ("        for k in self.flag_names:\n            stream.write(str(self[k]))\n", "        stream.write(\"\".join([str(self[k]) for k in self.flag_names]))\n"))
B("P38", BW, ("        self.edge_flags=(same_parameter,same_range, degenerated)", "        self.edge_flags=(same_range, same_parameter, degenerated)"))
B("P38", BW, ("        if value:\n            value =1\n        else:\n            value =0\n", "        if value:\n            value =0\n        else:\n            value =1\n"))
K("P38", BW, ("        if value:\n            value =1\n        else:\n            value =0\n", "        value = 1 if value else 0\n"))
B("P38", BW, ("                if edge.orientation == Orient.Reversed:\n", "                if edge.orientation != Orient.Forward:\n"))
B("P38", BW, ("                if edge.orientation == Orient.Reversed:\n", "                if edge.orientation == Orient.Forward:\n"))
B("P38", BW, ("                if edge.orientation == Orient.Reversed:\n                    e_vtxs.reverse()\n", ""))
K("P38", BW, ("                if edge.orientation == Orient.Reversed:\n                    e_vtxs.reverse()\n", "                if edge.orientation == Orient.Reversed:\n                    e_vtxs = e_vtxs[::-1]\n"))
K("P38", BW, ("                if edge.orientation == Orient.Reversed:\n                    e_vtxs.reverse()\n", "                if edge.orientation is Orient.Reversed:\n                    e_vtxs = list(reversed(e_vtxs))\n"))
B("P38", BW, ("            v0_uv = id_to_uv[e_vtxs[0].id]\n            v1_uv = id_to_uv[e_vtxs[1].id]\n", "            v0_uv = id_to_uv[min(e_vtxs[0].id, e_vtxs[1].id)]\n            v1_uv = id_to_uv[max(e_vtxs[0].id, e_vtxs[1].id)]\n"))
B("P38", BW, ("Approx.line_2d([v0, v1])", "Approx.line_2d([v1, v0])"))
K("P38", BW, ("            v0_uv = id_to_uv[e_vtxs[0].id]\n            v1_uv = id_to_uv[e_vtxs[1].id]\n", "            first, last = e_vtxs\n            v0_uv = id_to_uv[first.id]\n            v1_uv = id_to_uv[last.id]\n"))
K("P38", BW, ("            v0_uv = id_to_uv[e_vtxs[0].id]\n            v1_uv = id_to_uv[e_vtxs[1].id]\n            edge.attach_to_plane( surface, v0_uv, v1_uv )\n", "            v0_uv, v1_uv = [id_to_uv[v.id] for v in edge.subshapes()]\n            edge.attach_to_plane( surface, v0_uv, v1_uv )\n"))
B("P38", BW, ("self.orient_chars[self.orientation-1], self.shape.id, self.location.id", "self.orient_chars[self.shape.id and self.orientation-2], self.shape.id, self.location.id"))

# ---- P39
B("P39", HM, ("        for i_el in self.common_elements([rm_node]):\n            el_type", "        for i_el in list(self.node_els[target_node]):\n            el_type"))
B("P39", HM, ("            # prevent infinite loop\n            if self.max_ele_id > fraction", "            # prevent infinite loop\n            if len(self.mesh.elements) > fraction"))
B("P39", HM, ("                if ele.shape.dim < 2: continue\n                if ele.shape.gmsh_gamma()", "                if ele.shape.dim != 3: continue\n                if ele.shape.gmsh_gamma()"))
K("P39", HM, ("                if ele.shape.dim < 2: continue\n                if ele.shape.gmsh_gamma()", "                if ele.shape.dim <= 1: continue\n                if ele.shape.gmsh_gamma()"))
B("P39", HM, ("                if ele.shape.gmsh_gamma() > self.gamma_tol: continue", "                if ele.shape.gmsh_gamma() < self.gamma_tol: continue"))
K("P39", HM, ("                if ele.shape.gmsh_gamma() > self.gamma_tol: continue", "                if self.gamma_tol <= ele.shape.gmsh_gamma(): continue"))
B("P39", HM, ("        if len(dupl) > 1:\n            print", "        if len(dupl) > 2:\n            print"))
K("P39", HM, ("        if len(dupl) > 1:\n            print", "        if len(dupl) >= 2:\n            print"))
B("P39", HM, ("                if other_eid != ele.eid:\n                    self.remove_element(other_eid)", "                self.remove_element(other_eid)"))
B("P39", HM, ("(normal_component - avg)[:, None]", "normal_component[:, None]"))
B("P39", HM, ("        common_normal /= np.linalg.norm(common_normal)\n", "        common_normal /= np.max(common_normal)\n"))
K("P39", HM, ("        common_normal /= np.linalg.norm(common_normal)\n", "        common_normal = common_normal / np.sqrt(common_normal @ common_normal)\n"))
K("P39", HM, ("        flat_nodes = ele.shape.nodes - (normal_component - avg)[:, None] * common_normal[None, :]", "        flat_nodes = ele.shape.nodes - np.outer(normal_component - avg, common_normal)"))
B("P39", HM, ("        self.move_node(target_node, node_avg)", "        self.move_node(rm_node, node_avg)"))
B("P39", HM, ("np.average([np.array(self.mesh.nodes[n]) for n in merge_nodes], axis=0)", "np.average([np.array(self.mesh.nodes[n]) for n in merge_nodes[1:]], axis=0)"))
K("P39", HM, ("np.average([np.array(self.mesh.nodes[n]) for n in merge_nodes], axis=0)", "(np.array(self.mesh.nodes[rm_node]) + np.array(self.mesh.nodes[target_node])) / 2"))
K("P39", HM, ("np.average([np.array(self.mesh.nodes[n]) for n in merge_nodes], axis=0)", "np.mean([self.mesh.nodes[rm_node], self.mesh.nodes[target_node]], axis=0)"))
B("P39", HM, ("            aabb_min = np.minimum(aabb_min, n)", "            aabb_min = np.maximum(aabb_min, n)"))
B("P39", HM, ("        aabb_min = np.full(3, +np.inf)", "        aabb_min = np.full(3, -np.inf)"))
B("P39", HM, ("            i_min_edge = np.argmin(ele.shape.edge_lens)\n            edge =", "            i_min_edge = np.argmax(ele.shape.edge_lens)\n            edge ="))
B("P39", HM, ("            tria_node_ids = ele.node_ids[ele.shape.vtxs_faces[i_min_face]]", "            tria_node_ids = ele.node_ids[ele.shape.vtxs_faces[0]]"))
B("P39", HM, ("            tria_shape = t_shapes[i_min_face]", "            tria_shape = t_shapes[np.argmax(face_gammas)]"))
B("P39", HM, ("            self.remove_element(el_id)\n            for nid in edge_nids:", "            for nid in edge_nids:"))
B("P39", HM, ("                self.remove_element(el_id)\n                loc_n0", "                loc_n0"))
B("P39", HM, ("        for el_id in self.common_elements(tria_node_ids):\n            self.remove", "        for el_id in self.common_elements(tria_node_ids[:2]):\n            self.remove"))
B("P39", HM, ("        for i_edge_el in self.common_elements(merge_nodes):", "        for i_edge_el in self.common_elements(merge_nodes[:1]):"))
B("P39", HM, ("                for pos_new in [loc_n0, loc_n1]:", "                for pos_new in [loc_n0, loc_n0]:"))
B("P39", HM, ("            el_node_ids = [target_node if n == rm_node else n for n in el_node_ids]", "            el_node_ids = [rm_node if n == target_node else n for n in el_node_ids]"))
B("P39", HM, ("            for nid in outer_nids:\n", "            for nid in outer_nids[1:]:\n"))
K("P39", HM, ("            for nid in outer_nids:\n                i_nid_el = el_node_ids.index(nid)\n                new_node_ids = el_node_ids.copy()\n", "            for outer in outer_nids:\n                i_nid_el = el_node_ids.index(outer)\n                new_node_ids = list(el_node_ids)\n"))
K("P39", HM, ("                for pos_new in [loc_n0, loc_n1]:\n                    new_node_ids = el_node_ids.copy()\n                    new_node_ids[pos_new] = new_node_id\n                    self.add_element((el_type, el_tags, new_node_ids))\n", "                first, second = el_node_ids.copy(), el_node_ids.copy()\n                first[loc_n0] = new_node_id\n                second[loc_n1] = new_node_id\n                self.add_element((el_type, el_tags, first))\n                self.add_element((el_type, el_tags, second))\n"))
K("P39", HM, ("            el_node_ids = [target_node if n == rm_node else n for n in el_node_ids]", "            el_node_ids = [n if n != rm_node else target_node for n in el_node_ids]"))
B("P31", HM, ("        nid_proj = tria_node_ids[i_max_edge]", "        nid_proj = tria_node_ids[max_edge[1]]"))
B("P20", HM, ("        elements = set.intersection(*node_sets)", "        elements = min(node_sets, key=len)"))
K("P20", HM, ("        elements = set.intersection(*node_sets)", "        elements = set(node_sets[0])\n        for s in node_sets[1:]:\n            elements &= s"))
B("P20", HM, ("for eid in self.common_elements(ele.node_ids) if self.mesh.elements[eid][0] == ele.type]", "for eid in self.common_elements(ele.node_ids)]"))

# ---- P40
B("P40", GM, ("np.array([(1, 1, 0), (1, -1, 0), (-1, -1, 0), (-1, 1, 0)])", "np.array([(1, 1, 0), (1, -1, 0), (-1, 1, 0), (-1, -1, 0)])"))
B("P40", GM, ("        corner = np.array(center) - np.array(sides) / 2\n", "        corner = np.array(center) - np.array(sides)\n"))
B("P40", GM, ("np.array([xy_sides[0], xy_sides[1], 0]) / 2", "np.array([xy_sides[1], xy_sides[0], 0]) / 2"))
B("P40", GM, ("        vertices.append(vertices[0])\n", "        vertices.append(vertices[1])\n"))
B("P40", GM, ("        vertices.append(vertices[0])\n        lines = [self.model.addLine(a, b) for a,b in zip(vertices[0:-1], vertices[1:])]", "        lines = [self.model.addLine(a, b) for a,b in zip(vertices[0:-1], vertices[1:])]"))
B("P40", GM, ("for p, step in zip(points, mesh_step)]", "for p, step in zip(points, sorted(mesh_step))]"))
B("P40", GM, ("for p, step in zip(points, mesh_step)]", "for p, step in zip(points, np.roll(mesh_step, 1))]"))
B("P40", GM, ("addPoint(*p, step, tag=-1)", "addPoint(*p, mesh_step[0], tag=-1)"))
B("P40", GM, ("        self.factory.model.rotate(self.dim_tags, *center, *axis, angle)", "        self.factory.model.rotate(self.dim_tags, *axis, *center, angle)"))
B("P40", GM, ("        self.factory.model.dilate(self.dim_tags, *center, *scale_vector)", "        self.factory.model.dilate(self.dim_tags, *scale_vector, *center)"))
B("P40", GM, ("        self.factory.model.translate(self.dim_tags, *vector)", "        self.factory.model.translate(self.dim_tags, *[-x for x in vector])"))
B("P40", GM, ("            shape = shape.scale([fr.rx, fr.ry, 1]) \\\n                .rotate(axis=fr.rotation_axis, angle=fr.rotation_angle) \\\n", "            shape = shape.rotate(axis=fr.rotation_axis, angle=fr.rotation_angle) \\\n                .scale([fr.rx, fr.ry, 1]) \\\n"))
B("P40", GM, ("shape.scale([fr.rx, fr.ry, 1])", "shape.scale([fr.ry, fr.rx, 1])"))
B("P40", GM, ("            center += mass*np.array(", "            center += np.array("))
B("P40", GM, ("            mass_total += mass\n", "            mass_total += 1\n"))
B("P40", GM, ("combined=False, oriented=False, recursive=True)", "combined=False, oriented=False, recursive=False)"))
B("P40", GM, ("combined=False, oriented=False, recursive=True)", "combined=True, oriented=False, recursive=True)"))
B("P40", GM, ("        return self.object(3, box_tag)", "        return self.object(2, box_tag)"))
K("P40", GM, ("        vertices.append(vertices[0])\n        lines = [self.model.addLine(a, b) for a,b in zip(vertices[0:-1], vertices[1:])]", "        n = len(vertices)\n        lines = [self.model.addLine(vertices[i], vertices[(i + 1) % n]) for i in range(n)]"))
K("P40", GM, ("        vertices.append(vertices[0])\n        lines = [self.model.addLine(a, b) for a,b in zip(vertices[0:-1], vertices[1:])]", "        lines = [self.model.addLine(a, b) for a,b in zip(vertices, vertices[1:] + vertices[:1])]"))
K("P40", GM, ("        corner = np.array(center) - np.array(sides) / 2\n", "        corner = np.array(center) - 0.5 * np.array(sides)\n"))
K("P40", GM, ("        corner = np.array(center) - np.array(sides) / 2\n        box_tag = self.model.addBox(*corner, *sides)", "        x, y, z = [c - s / 2 for c, s in zip(center, sides)]\n        box_tag = self.model.addBox(x, y, z, sides[0], sides[1], sides[2])"))
K("P40", GM, ("        self.factory.model.rotate(self.dim_tags, *center, *axis, angle)", "        self.factory.model.rotate(self.dim_tags, center[0], center[1], center[2], axis[0], axis[1], axis[2], angle=angle)"))

# ---- P24, sets built from several entities
B("P24", GM, ("        regions = [reg\n                   for obj in obj_list\n                   for reg in obj.regions]", "        regions = [obj.regions[0]\n                   for obj in obj_list\n                   for reg in obj.dim_tags]"))
B("P24", GM, ("            newset = [ObjectSet(self, new_subtags, [reg])\n", "            newset = [ObjectSet(self, new_subtags, [o.regions[0]])\n"))
B("P24", GM, ("            if len(id_set) > 1:", "            if len(id_set) > 2:"))
B("P24", GM, ("            if len(dimtag_map) == 1:\n", "            if len(dimtag_map) == 0:\n"))
B("P24", GM, ("set(dict_tool) - set(dict_obj)}", "set(dict_tool)}"))
B("P24", GM, ("        isec_set = set(dict_obj) & set(dict_tool)", "        isec_set = set(dict_obj) | set(dict_tool)"))
B("P24", GM, ("Region.get(b_reg_name, dim=reg.dim - 1)", "Region.get(b_reg_name, dim=reg.dim)"))
B("P24", GM, ("            new_region = self.factory.get_region_name(new_name)\n            regions.append(new_region)", "            region.name = new_name\n            regions.append(region)"))
B("P24", GM, ("        return Region(dim, cls.get_region_id(), name)", "        return Region(dim, cls._max_reg_id, name)"))
B("P24", GM, ("        cls._max_reg_id += 1\n        return cls._max_reg_id", "        return cls._max_reg_id + 1"))
B("P24", GM, ("old_tags_map[:len(self.dim_tags)])]", "old_tags_map[-len(self.dim_tags):])]"))
B("P24", GM, ("        regions = [Region.default_region[dim] for dim, tag in dimtags]", "        regions = [Region.default_region[dim] for dim, tag in self.dim_tags]"))
K("P24", GM, ("            if len(dimtag_map) == 1:\n", "            if dimtag_map:\n"))
K("P24", GM, ("            if len(id_set) > 1:", "            if len(id_set) >= 2:"))
K("P24", GM, ("        cut_obj = {k: dict_obj[k] for k in set(dict_obj) - set(dict_tool)}", "        cut_obj = {k: r for k, r in dict_obj.items() if k not in dict_tool}"))
K("P24", GM, ("        isec_set = set(dict_obj) & set(dict_tool)", "        isec_set = [k for k in dict_obj if k in dict_tool]"))
K("P24", GM, ("        cls._max_reg_id += 1\n        return cls._max_reg_id", "        cls._max_reg_id = cls._max_reg_id + 1\n        return cls._max_reg_id"))
B("P26", "gmsh/field.py", ("    if sigmoid:\n", "    if sigmoid is not None:\n"))
B("P26", "gmsh/field.py", ("        b_group = group.get_boundary(combined=False)\n        group = factory.group(group, b_group)", "        group = group.get_boundary(combined=False)"))
B("P26", "gmsh/field.py", ("    group = factory.group(*object_sets)\n", "    group = object_sets[0]\n"))
K("P26", "gmsh/field.py", ("        b_group = group.get_boundary(combined=False)\n        group = factory.group(group, b_group)", "        group = factory.group(*object_sets, group.get_boundary(combined=False))"))

# P41
B("P41", BA, ('self._z_quad_points = self._z_points[in_idx]', 'self._z_quad_points = self._z_points[:len(points_uv)]'))
B("P41", BA, ('self._w_quad_points = self._weights[in_idx]', 'self._w_quad_points = self._weights[:len(points_uv)]'))
B("P41", BA, ('wb_mat = W.dot(b_mat)', 'wb_mat = b_mat'))
B("P41", BA, ('wg_vec = W.dot(g_vec)', 'wg_vec = W.dot(W.dot(g_vec))'))
B("P41", BA, ('bb_mat = b_mat.transpose().dot(wb_mat)', 'bb_mat = wb_mat.transpose().dot(wb_mat)'))
B("P41", BA, ('b_vec = b_mat.transpose().dot( wg_vec )', 'b_vec = wb_mat.transpose().dot( wg_vec )'))
B("P41", BA, ('diff = b_mat.dot(z_vec) - g_vec', 'diff = wb_mat.dot(z_vec) - wg_vec'))
B("P41", BA, ('np.max(np.abs(diff))', 'np.max(diff)'))
B("P41", BA, ('z_vec.reshape(self._v_basis.size, self._u_basis.size).T', 'z_vec.reshape(self._u_basis.size, self._v_basis.size)'))
B("P41", BA, ('self.surface = bs.Z_Surface(self.quad[0:3], surface_z)', 'self.surface = bs.Z_Surface(self.quad[1:4], surface_z)'))
B("P41", BA, ('points_uv = np.dot((self._xy_points - xy_shift), mat_xy_to_uv.T)', 'points_uv = np.dot((self._xy_points - xy_shift), mat_xy_to_uv)'))
B("P41", BA, ('xy_shift = self.quad[1,:]', 'xy_shift = self.quad[0,:]'))
B("P41", BA, ('mat_uv_to_xy = np.column_stack((u_vec, v_vec))', 'mat_uv_to_xy = np.column_stack((v_vec, u_vec))'))
B("P41", BA, ('cut_max = np.array( [ 1+eps, 1+eps ])', 'cut_max = np.array( [ 1+eps, 0.9 ])'))
B("P41", BA, ('np.all(np.logical_and(cut_min', 'np.any(np.logical_and(cut_min'))
B("P41", BA, ('col_item = (iv + n) * u_n_basf + iu + m', 'col_item = (iv + n) * v_n_basf + iu + m'))
B("P41", BA, ('= v_base_vec[n] * u_base_vec', '= v_base_vec * u_base_vec[n]'))
B("P41", BA, ('row[nnz_b:nnz_b + 9] = idx', 'row[nnz_b:nnz_b + 8] = idx'))
B("P41", BA, ('v_du = np.kron(v_val_outer_loc, du_val_outer_loc)', 'v_du = np.kron(du_val_outer_loc, v_val_outer_loc)'))
B("P41", BA, ('jac * ( v_du + dv_u).ravel()', 'jac * ( v_du + v_du).ravel()'))
B("P41", BA, ('iuv = iu + iv * u_n_basf', 'iuv = iu * u_n_basf + iv'))
B("P41", BA, ('row_m[nnz_a:nnz_a + idx_range] = np.tile(colv, n_uv_loc_nz)', 'row_m[nnz_a:nnz_a + idx_range] = np.repeat(colv, n_uv_loc_nz)'))
B("P41", BA, ('(u_n_basf * i_local[:, None] + i_local[None,:])', '(v_n_basf * i_local[:, None] + i_local[None,:])'))
K("P41", BA, ('jac = 1.0 / u_n_inter / v_n_inter', 'jac = 1.0 / u_n_inter / u_n_inter'))
B("P41", BA, ('us = basis.knots[i + 2]', 'us = basis.knots[i + 1]'))
B("P41", BA, ('self._q_weights = [1.0 / 6, 5.0 / 6, 5.0 / 6, 1.0 / 6]', 'self._q_weights = [1.0 / 6, 5.0 / 6, 1.0 / 6, 5.0 / 6]'))
B("P41", BA, ('(0.5 - 1 / np.sqrt(20)), (0.5 + 1 / np.sqrt(20))', '(0.5 - 1 / np.sqrt(20)), (0.5 + 1 / np.sqrt(12))'))
B("P41", BA, ('self._q_weights[j] * np.outer(u_base_vec_diff,u_base_vec_diff)', 'np.outer(u_base_vec_diff,u_base_vec_diff)'))
B("P41", BA, ('u_base_vec_diff = basis.eval_diff_base_vector(i, up)', 'u_base_vec_diff = basis.eval_base_vector(i, up)'))
B("P41", BA, ('c_mat = bb_mat + self.regularization_weight * (bb_norm[0] / a_norm[0]) * a_mat', 'c_mat = bb_mat + self.regularization_weight * (a_norm[0] / bb_norm[0]) * a_mat'))
B("P41", BA, ('self._weights = points[:, 3]', 'self._weights = points[:, -2]'))
B("P41", BA, ('        self._compute_uv_points()\n\n        logging.info("Using', '        if not hasattr(self, \'_uv_quad_points\'):\n            self._compute_uv_points()\n\n        logging.info("Using'))
B("P41", BA, ('self._v_basis = bs.SplineBasis.make_equidistant(2, self.nuv[1])', 'self._v_basis = bs.SplineBasis.make_equidistant(2, self.nuv[0])'))
B("P41", BA, ('iv = self._v_basis.find_knot_interval(v)', 'iv = self._u_basis.find_knot_interval(v)'))
B("P41", BA, ('points_uv = np.maximum(points_uv, np.array([0.0, 0.0]))', 'points_uv = np.maximum(points_uv, np.array([0.1, 0.0]))'))
B("P41", BA, ('g_vec = self._z_quad_points[:]', 'g_vec = self._z_points[:]'))
B("P41", BA, ('scipy.sparse.diags(self._w_quad_points, 0)', 'scipy.sparse.diags(self._weights, 0)'))
B("P41", BA, ("self._z_points = points[:, 2]", "self._z_points = points[:, -1]"))
K("P41", BA, ("        self._z_quad_points = self._z_points[in_idx]\n        if self._weights is not None:\n            self._w_quad_points = self._weights[in_idx]", "        if self._weights is not None:\n            self._w_quad_points = self._weights[in_idx]\n        self._z_quad_points = self._z_points[in_idx]"))
K("P41", BA, ("wb_mat = W.dot(b_mat)", "wb_mat = W @ b_mat"), ("b_vec = b_mat.transpose().dot( wg_vec )", "b_vec = b_mat.T.dot( wg_vec )"))
K("P41", BA, ("b_vec = b_mat.transpose().dot( wg_vec )", "b_vec = wb_mat.transpose().dot( g_vec )"))
K("P41", BA, ("diff = b_mat.dot(z_vec) - g_vec", "diff = g_vec - b_mat @ z_vec"))
K("P41", BA, ("iuv = iu + iv * u_n_basf", "first = iv * u_n_basf\n                iuv = first + iu"))
K("P41", BA, ("        points_uv = np.maximum(points_uv, np.array([0.0, 0.0]))\n        self._uv_quad_points = np.minimum(points_uv, np.array([1.0, 1.0]))", "        self._uv_quad_points = np.clip(points_uv, 0.0, 1.0)"))
K("P41", BA, ("self._q_weights = [1.0 / 6, 5.0 / 6, 5.0 / 6, 1.0 / 6]", "self._q_weights = [1.0 / 12, 5.0 / 12, 5.0 / 12, 1.0 / 12]"))
K("P41", BA, ("                    col_item = (iv + n) * u_n_basf + iu + m\n                    col[nnz_b + (3 * n) + m] = col_item", "                    col[nnz_b + m + n * 3] = iu + m + u_n_basf * (iv + n)"))
K("P41", BA, ("                data_m[nnz_a:nnz_a + idx_range] = jac * ( v_du + dv_u).ravel()  # 9x9 values", "                data_m[nnz_a:nnz_a + idx_range] = jac * ( dv_u + v_du).ravel()"))
B("P41", BA, ('    edge_angles = np.unique(edge_angles)', '    edge_angles = np.unique(edge_angles)[1:]'))
B("P41", BA, ('max_x = np.nanmax(rot_points[0], axis=0)', 'max_x = np.nanmax(rot_points[1], axis=0)'))
B("P41", BA, ('area = (max_x - min_x) * (max_y - min_y)', 'area = (max_x - min_x) + (max_y - min_y)'))
B("P41", BA, ('        if (area < min_bbox[1]):', '        if (area > min_bbox[1]):'))
B("P41", BA, ('corner_points[0] = np.dot( [ min_x, max_y ], R )', 'corner_points[0] = np.dot( [ min_x, max_y ], R.T )'))
B("P41", BA, ('corner_points[0] = np.dot( [ min_x, max_y ], R )', 'corner_points[0] = np.dot( [ max_x, max_y ], R )'))
B("P41", BA, ('    corner_points[1] = np.dot( [ min_x, min_y ], R )\n    corner_points[2] = np.dot( [ max_x, min_y ], R )', '    corner_points[2] = np.dot( [ min_x, min_y ], R )\n    corner_points[1] = np.dot( [ max_x, min_y ], R )'))
B("P41", BA, ('edge_angles = np.abs( edge_angles%(np.pi/2))', 'edge_angles = np.abs( edge_angles%(np.pi/4))'))
K("P41", BA, ("    edge_angles = np.unique(edge_angles)", "    edge_angles = np.sort(edge_angles)"))
K("P41", BA, ("        if (area < min_bbox[1]):", "        if min_bbox[1] > area:"))
K("P41", BA, ("R = np.array([[np.cos(angle), np.cos(angle - (np.pi / 2))],", "R = np.array([[np.cos(angle), np.sin(angle)],"))
K("P41", BA, ("corner_points[0] = np.dot( [ min_x, max_y ], R )", "corner_points[0] = np.dot( R.T, [ min_x, max_y ] )"))
B("P41", BA, ('outer = np.repeat(sample, dists>0, 0)', 'outer = np.repeat(sample, dists>1, 0)'))
B("P41", BA, ('pivot = sample[np.argmax(dists)]', 'pivot = outer[0]'))
B("P41", BA, ('        return link(dome(sample, base), dome(sample, base[::-1]))', '        return dome(sample, base)'))
B("P41", BA, ("            return link(dome(outer, edge(h, pivot)),\n                    dome(outer, edge(pivot, t)))", "            return link(dome(outer, edge(h, pivot)),\n                    edge(pivot, t))"))
B("P41", BA, ("dome(sample, base[::-1]))", "dome(sample, base))"))
K("P41", BA, ("        dists = np.dot(sample-h, normal)", "        dists = np.dot(sample-t, normal)"))
K("P41", BA, ("outer = np.repeat(sample, dists>0, 0)", "outer = sample[dists > 0]"))
K("P41", BA, ("            pivot = sample[np.argmax(dists)]", "            pivot = outer[np.argmax(dists[dists > 0])]"))
B("P41", BA, ("            pivot = sample[np.argmax(dists)]", "            pivot = sample[np.argmin(dists)]"))
B("P41", BA, ("            pivot = sample[np.argmax(dists)]", "            pivot = outer[np.argmax(dists)]"))
B("P41", BA, ('        approx.quad = grid_surface.quad\n', '        approx.quad = grid_surface.quad[::-1]\n'))
B("P41", BA, ('        approx.quad = grid_surface.quad\n', ''))
B("P41", BA, ('curve_poles[-1] = points[-1]', 'curve_poles[-1] = points[0]'))
B("P41", BA, ('basis = bs.SplineBasis(degree, knots)\n    curve = bs.Curve(basis, curve_poles)', 'basis = bs.SplineBasis(deg - 1, knots)\n    curve = bs.Curve(basis, curve_poles)'))
B("P41", BA, ('        self.quad = kwargs.get("quad", self.quad)', '        self.quad = kwargs.get("quad", None)'))
B("P41", BA, ('            quad = np.array([[0,1], [0,0], [1,0], [1,1]])', '            quad = np.array([[0,0], [1,0], [1,1], [0,1]])'))
B("P41", BA, ('    return approx.compute_approximation(nuv=nuv)', '    return approx.compute_approximation(nuv=nuv[::-1])'))
B("P41", BA, ('nuv = self._compute_default_nuv(len(self._z_quad_points))', 'nuv = self._compute_default_nuv(len(self._z_points))'))
K("P41", BA, ("    curve_poles[0] = points[0]\n    curve_poles[-1] = points[-1]\n", "    curve_poles[[0, -1]] = points[[0, -1]]\n"))
K("P41", BA, ("        approx.quad = grid_surface.quad\n", "        approx.set_quad(grid_surface.quad)\n"))
