"""Behaviour-preserving edits used to test that the checks stay quiet.  R[id] = (properties, file, [(old, new)])"""
R = {}
def r(id, props, file, *edits): R[id] = (props.split(), "src/" + file + ".rs", edits)
uf = "data_structure/union_find"
r("uf_iter_find", "C01", uf, ("""        if self.fa[i] == i {
            i
        } else {
            self.fa[i] = self.find(self.fa[i]);
            self.fa[i]
        }""", """        if self.fa[i] != i {
            let root = self.find(self.fa[i]);
            self.fa[i] = root;
        }
        self.fa[i]"""))
r("uf_join_else", "C01", uf, ("""        let (mut fx, mut fy) = (self.find(x), self.find(y));
        if fx == fy {
            return false;
        }
        if self.sz[fx] > self.sz[fy] {
            std::mem::swap(&mut fx, &mut fy);
        }
        self.fa[fx] = fy;
        self.sz[fy] += self.sz[fx];
        true""", """        let fx = self.find(x);
        let fy = self.find(y);
        if fx == fy {
            return false;
        }
        let (small, large) = if self.sz[fx] > self.sz[fy] { (fy, fx) } else { (fx, fy) };
        self.sz[large] += self.sz[small];
        self.fa[small] = large;
        true"""))
r("uf_join_helper", "C01", uf, ("""        self.fa[fx] = fy;
        self.sz[fy] += self.sz[fx];
        true
    }
""", """        self.attach(fx, fy);
        true
    }

    fn attach(&mut self, child: usize, root: usize) {
        self.fa[child] = root;
        self.sz[root] += self.sz[child];
    }
"""))
r("uf_groups_tmp", "C01", uf, ("            result[self.find(i)].push(i);", "            let root = self.find(i);\n            result[root].push(i);"))
r("uf_groups_for", "C01", uf, ("""        result
            .into_iter()
            .filter(|x| !x.is_empty())
            .collect::<Vec<Vec<usize>>>()""", """        let mut out = Vec::new();
        for group in result {
            if !group.is_empty() {
                out.push(group);
            }
        }
        out"""))
fw = "data_structure/fenwick_tree"
r("fw_from_while", "C02", fw, ("        for i in 1..=n {\n            obj.ary[i - 1] += a[i - 1].clone();", "        for k in 0..n {\n            let i = k + 1;\n            obj.ary[i - 1] += a[i - 1].clone();"))
r("fw_lowbit", "C02 C03", fw, ("            let j = i + (i & i.wrapping_neg());", "            let j = i + lowbit(i);"), ("            idx += idx & idx.wrapping_neg();", "            idx += lowbit(idx);"), ("pub struct FenwickTree<T> {", "fn lowbit(i: usize) -> usize {\n    i & i.wrapping_neg()\n}\n\npub struct FenwickTree<T> {"))
r("fw_pref_sub", "C02", fw, ("            idx &= idx - 1;\n        }\n        sum\n", "            idx -= idx & idx.wrapping_neg();\n        }\n        sum\n"))
r("fw_sum_tmp", "C02", fw, ("        self.pref(r) - self.pref(l)", "        let hi = self.pref(r);\n        let lo = self.pref(l);\n        hi - lo"))
sg = "data_structure/segtree"
r("sg_prod_reorder", "C04", sg, ("""            if l & 1 != 0 {
                sml = M::binary_operation(&sml, &self.d[l]);
                l += 1;
            }
            if r & 1 != 0 {
                r -= 1;
                smr = M::binary_operation(&self.d[r], &smr);
            }
            l >>= 1;
            r >>= 1;""", """            if r & 1 == 1 {
                r -= 1;
                smr = M::binary_operation(&self.d[r], &smr);
            }
            if l & 1 == 1 {
                sml = M::binary_operation(&sml, &self.d[l]);
                l += 1;
            }
            l /= 2;
            r /= 2;"""))
r("sg_set_while", "C04", sg, ("        for i in 1..=self.log {\n            self.update(p >> i);\n        }\n    }\n\n    /// Returns `a[p]`.", "        while p > 1 {\n            p >>= 1;\n            self.update(p);\n        }\n    }\n\n    /// Returns `a[p]`."))
r("sg_maxright_descend", "C05", sg, ("""            if !f(&M::binary_operation(&sm, &self.d[l])) {
                while l < self.size {
                    l *= 2;
                    let res = M::binary_operation(&sm, &self.d[l]);
                    if f(&res) {
                        sm = res;
                        l += 1;
                    }
                }
                return l - self.size;
            }
            sm = M::binary_operation(&sm, &self.d[l]);
            l += 1;""", """            let next = M::binary_operation(&sm, &self.d[l]);
            if !f(&next) {
                return self.descend(l, sm, f);
            }
            sm = next;
            l += 1;"""), ("""    /// Return the minimum index l such that""", """    fn descend<F>(&self, mut l: usize, mut sm: M::S, f: F) -> usize
    where
        F: Fn(&M::S) -> bool,
    {
        while l < self.size {
            l *= 2;
            let res = M::binary_operation(&sm, &self.d[l]);
            if f(&res) {
                sm = res;
                l += 1;
            }
        }
        l - self.size
    }

    /// Return the minimum index l such that"""))
r("st_build_rename", "C08", "data_structure/sparse_table", ("""        for c in 1..count {
            let bound = n - (1 << c);
            for i in 0..=bound {
                data[c][i] = op(data[c - 1][i], data[c - 1][i + (1 << (c - 1))]);
            }
        }""", """        for level in 1..count {
            let half = 1 << (level - 1);
            for i in 0..(n - 2 * half + 1) {
                let left = data[level - 1][i];
                let right = data[level - 1][i + half];
                data[level][i] = op(left, right);
            }
        }"""))
r("st_get_tmp", "C08", "data_structure/sparse_table", ("        (self.op)(self.data[c][l], self.data[c][r - (1 << c)])", "        let row = &self.data[c];\n        let start = r - (1 << c);\n        (self.op)(row[l], row[start])"))
r("mh_pop_map", "C09", "data_structure/min_heap", ("""        match self.0.pop() {
            Some(x) => Some(x.0),
            None => None,
        }""", "        self.0.pop().map(|Reverse(x)| x)"))
r("mh_sorted_for", "C09", "data_structure/min_heap", ("        self.0.into_sorted_vec().into_iter().map(|x| x.0).collect()", "        let mut res = Vec::with_capacity(self.0.len());\n        for x in self.0.into_sorted_vec() {\n            res.push(x.0);\n        }\n        res"))
dj = "graph/shortest_path"
r("dj_match", "C10", dj, ("""            if dis[v].is_none() || unsafe { dis[v].unwrap_unchecked() } > d + c {
                dis[v] = Some(d + c);
                q.push((d + c, v));
            }""", """            let nd = d + c;
            let better = match dis[v] {
                Some(old) => nd < old,
                None => true,
            };
            if better {
                dis[v] = Some(nd);
                q.push((nd, v));
            }"""))
r("dj_order", "C10", dj, ("    q.push((0, s));\n    dis[s] = Some(0);", "    dis[s] = Some(0);\n    q.push((0, s));"), ("        if Some(d) != dis[u] {\n            continue;\n        }\n", "        if dis[u] != Some(d) {\n            continue;\n        }\n"))
bl = "graph/binary_lifting"
r("bl_lca_tmp", "C11", bl, ("            if !self.is_ancestor(self.pa[u][i], v) {\n                u = self.pa[u][i];\n            }", "            let w = self.pa[u][i];\n            if !self.is_ancestor(w, v) {\n                u = w;\n            }"))
r("bl_anc_order", "C11", bl, ("        self.tin[v] >= self.tin[u] && self.tin[v] < self.tout[u]", "        let t = self.tin[v];\n        self.tin[u] <= t && t < self.tout[u]"))
r("bl_dis", "C11", bl, ("        self.dep[u] - self.dep[l] + self.dep[v] - self.dep[l]", "        (self.dep[u] - self.dep[l]) + (self.dep[v] - self.dep[l])"))
r("bl_dfs_order", "C11", bl, ("""        self.tin[u] = *timer;
        *timer += 1;
        self.pa[u][0] = p;
        for i in 1..self.level {
            self.pa[u][i] = self.pa[self.pa[u][i - 1]][i - 1];
        }
""", """        self.pa[u][0] = p;
        for i in 1..self.level {
            let mid = self.pa[u][i - 1];
            self.pa[u][i] = self.pa[mid][i - 1];
        }
        self.tin[u] = *timer;
        *timer += 1;
"""))
hl = "graph/heavy_light_decomp"
r("hl_dfs2_iflet", "C12", hl, ("""        let v = self.heavy_child[u];
        if v.is_some() {
            self.dfs2(v.unwrap(), head, timer, g);
        }
""", """        if let Some(h) = self.heavy_child[u] {
            self.dfs2(h, head, timer, g);
        }
"""))
r("hl_path_tmp", "C12", hl, ("            self.data.apply_range(self.pos[self.head[u]], self.pos[u] + 1, f.clone());\n            u = self.parent[self.head[u]];", "            let top = self.head[u];\n            self.data.apply_range(self.pos[top], self.pos[u] + 1, f.clone());\n            u = self.parent[top];"))
bm = "graph/bipartite_matching"
r("bm_count", "C13", bm, ("""        let mut ret = 0;
        for i in 0..self.l.len() {
            if self.l[i].is_some() {
                ret += 1;
            }
        }
        ret""", "        self.l.iter().filter(|x| x.is_some()).count()"))
r("bm_dfs_match", "C13", bm, ("            if Self::dfs(r[v].unwrap(), g, vis, l, r) {\n                l[u] = Some(v);\n                r[v] = Some(u);", "            let w = r[v].unwrap();\n            if Self::dfs(w, g, vis, l, r) {\n                r[v] = Some(u);\n                l[u] = Some(v);"))
r("bm_helper", "C13", bm, ("""            if !ok {
                break;
            }
        }
        let mut ret = 0;
        for i in 0..self.l.len() {
            if self.l[i].is_some() {
                ret += 1;
            }
        }
        ret
    }""", """            if !ok {
                break;
            }
        }
        self.matched()
    }

    fn matched(&self) -> usize {
        let mut ret = 0;
        for i in 0..self.l.len() {
            if self.l[i].is_some() {
                ret += 1;
            }
        }
        ret
    }"""))
tj = "graph/tarjan"
r("tj_if", "C14", tj, ("                self.low[u] = self.low[u].min(self.low[v]);", "                if self.low[v] < self.low[u] {\n                    self.low[u] = self.low[v];\n                }"))
r("tj_color_for", "C14", tj, ("""    graph
        .component
        .into_iter()
        .enumerate()
        .for_each(|(i, v)| v.into_iter().for_each(|x| color[x] = i));""", """    for (i, members) in graph.component.iter().enumerate() {
        for &x in members {
            color[x] = i;
        }
    }"""))
r("tj_pop", "C14", tj, ("""            self.component.push(vec![]);
            loop {
                let v = self.stack.pop().unwrap();
                self.on_stack[v] = false;
                self.component.last_mut().unwrap().push(v);
                if u == v {
                    break;
                }
            }""", """            let mut comp = vec![];
            loop {
                let v = self.stack.pop().unwrap();
                self.on_stack[v] = false;
                comp.push(v);
                if u == v {
                    break;
                }
            }
            self.component.push(comp);"""))
mf = "graph/max_flow"
r("mf_bfs_ret", "C15", mf, ("                let Edge{to: v, cap: c} = self.e[i];\n                if c > Cap::zero() && self.h[v] == -1 {\n                    self.h[v] = self.h[u] + 1;", "                let v = self.e[i].to;\n                let c = self.e[i].cap;\n                if self.h[v] == -1 && c > Cap::zero() {\n                    self.h[v] = self.h[u] + 1;"))
r("mf_dfs_used", "C15", mf, ("                self.e[j].cap -= a;\n                self.e[j ^ 1].cap += a;\n                r -= a;", "                r -= a;\n                self.e[j ^ 1].cap += a;\n                self.e[j].cap -= a;"))
nt = "math/number_theory"
r("nt_gcd_tuple", "C16", nt, ("        let t = b;\n        b = a % b;\n        a = t;", "        let r = a % b;\n        a = b;\n        b = r;"))
r("nt_lcm_tmp", "C16", nt, ("    a * b / gcd(a, b)", "    let g = gcd(a, b);\n    a * b / g"))
r("nt_exgcd_tmp", "C16 C17", nt, ("    let (x, y, g) = ex_gcd(b, a % b);\n    (y, x - a / b * y, g)", "    let q = a / b;\n    let r = a % b;\n    let (x, y, g) = ex_gcd(b, r);\n    (y, x - q * y, g)"))
r("nt_crt_split", "C17", nt, ("        let (a_, mut b_, mut m_) = (a[i] * lcm, b[i] - a[i] * x, m[i]);", "        let a_ = a[i] * lcm;\n        let mut b_ = b[i] - a[i] * x;\n        let mut m_ = m[i];"))
r("nt_crt_helper", "C17", nt, ("        x += lcm * (y as i128 * b_ as i128 % m_ as i128) as i64;", "        x += lcm * mul_rem(y, b_, m_);"), ("/// Extended Chinese", "fn mul_rem(a: i64, b: i64, m: i64) -> i64 {\n    (a as i128 * b as i128 % m as i128) as i64\n}\n\n/// Extended Chinese"))
fa = "math/factorial"
r("fa_tmp", "C21", fa, ("            factorial[i] = factorial[i - 1] * i;", "            let prev = factorial[i - 1];\n            factorial[i] = prev * i;"))
r("fa_choose", "C21", fa, ("        self.factorial[n] * self.inv_fac[n - k] * self.inv_fac[k]", "        self.perm(n, k) * self.inv_fac[k]"))
r("z_max", "C22", "string/z_algorithm", ("            z[i] = (r - i + 1).min(z[i - l]);", "            let len = r - i + 1;\n            z[i] = if z[i - l] < len { z[i - l] } else { len };"))
r("z_local", "C22", "string/z_algorithm", ("        while i + z[i] < n && s[z[i]] == s[i + z[i]] {\n            z[i] += 1;\n        }", "        let mut k = z[i];\n        while i + k < n && s[k] == s[i + k] {\n            k += 1;\n        }\n        z[i] = k;"))
r("kmp_while", "C23", "string/kmp", ("    for i in 1..n {\n        let mut j = pi[i - 1];", "    let mut i = 1;\n    while i < n {\n        let mut j = pi[i - 1];"), ("        pi[i] = j;\n", "        pi[i] = j;\n        i += 1;\n"))
r("kmp_carry", "C23", "string/kmp", ("    for i in 1..n {\n        let mut j = pi[i - 1];", "    let mut j = 0;\n    for i in 1..n {"))
ac = "string/aho_corasick"
r("ac_step", "C24", ac, ("""        for &c in text {
            p = self.nodes[p].next[(c - OFFSET) as usize];
            if let Some(x) = self.nodes[p].end {
                cnt[x] += 1;""", """        for &c in text {
            p = self.step(p, c);
            if let Some(x) = self.nodes[p].end {
                cnt[x] += 1;"""), ("    pub fn find(&self", "    fn step(&self, p: usize, c: u8) -> usize {\n        self.nodes[p].next[(c - OFFSET) as usize]\n    }\n\n    pub fn find(&self"))
r("ac_build_if", "C24", ac, ("""                match self.nodes[u].next[i] {
                    0 => self.nodes[u].next[i] = fail,
                    v => {
                        self.nodes[v].back = fail;
                        self.nodes[v].output = if self.nodes[fail].end.is_some() {
                            Some(fail)
                        } else {
                            self.nodes[fail].output
                        };
                        q.push_back(v);
                    }
                }""", """                let v = self.nodes[u].next[i];
                if v == 0 {
                    self.nodes[u].next[i] = fail;
                } else {
                    q.push_back(v);
                    self.nodes[v].back = fail;
                    self.nodes[v].output = if self.nodes[fail].end.is_some() {
                        Some(fail)
                    } else {
                        self.nodes[fail].output
                    };
                }"""))
mo = "misc/monoids"
r("mo_if", "C25", mo, ("        max(*a, *b)", "        if *b >= *a {\n            *b\n        } else {\n            *a\n        }"))
r("mo_tmp", "C25", mo, ("        *a + *b", "        let (x, y) = (*a, *b);\n        x + y"))
ut = "misc/util"
r("ut_lg", "C26 C08 C11", ut, ("    64 - 1 - i.leading_zeros()", "    63 - i.leading_zeros()"))
r("ut_ceil", "C26 C04", ut, ("    32 - n.saturating_sub(1).leading_zeros()", "    if n <= 1 {\n        0\n    } else {\n        32 - (n - 1).leading_zeros()\n    }"))
r("in_checked_map", "C27", "misc/input", ("""        match self.iter.next() {
            Some(x) => Some(x.parse::<T>().ok().unwrap()),
            None => None
        }""", "        let token = self.iter.next()?;\n        Some(token.parse::<T>().ok().unwrap())"))
r("in_token", "C27", "misc/input", ("        self.iter.next().unwrap().parse::<T>().ok().unwrap()\n", "        self.token().parse::<T>().ok().unwrap()\n"), ("    pub fn i32(&mut self)", "    fn token(&mut self) -> &'a str {\n        self.iter.next().unwrap()\n    }\n    pub fn i32(&mut self)"))
r("in_vec", "C27", "misc/input", ("        (0..n).map(|_| self.read()).collect()", "        let mut res = Vec::with_capacity(n);\n        for _ in 0..n {\n            res.push(self.read());\n        }\n        res"))
r("fa_order", "C21", "math/factorial", ("        self.factorial[n] * self.inv_fac[n - k] * self.inv_fac[k]", "        self.inv_fac[k] * (self.factorial[n] * self.inv_fac[n - k])"), ("        self.factorial[n] * self.inv_fac[n - k]\n", "        self.inv_fac[n - k] * self.factorial[n]\n"))

# ---- second batch -------------------------------------------------------------------------------------------
hl = "graph/heavy_light_decomp"; tj = "graph/tarjan"; mfl = "graph/max_flow"; ah = "string/aho_corasick"
lz = "data_structure/lazy_segtree"; sg2 = "data_structure/segtree"; im = "math/internal_math"; mi = "misc/modint"
fw2 = "data_structure/fenwick_tree"; bm2 = "graph/bipartite_matching"; bl2 = "graph/binary_lifting"
r("hl_dfs1_order", "C12", hl, ("""                self.parent[v] = u;
                self.dep[v] = self.dep[u] + 1;
""", """                self.dep[v] = self.dep[u] + 1;
                self.parent[v] = u;
"""))
r("hl_dfs1_continue", "C12", hl, ("""            if v != self.parent[u] {
                self.parent[v] = u;
                self.dep[v] = self.dep[u] + 1;
                let child_size = self.dfs1(v, g);
                size += child_size;
                if child_size > max_size {
                    max_size = child_size;
                    self.heavy_child[u] = Some(v);
                }
            }
""", """            if v == self.parent[u] {
                continue;
            }
            self.parent[v] = u;
            self.dep[v] = self.dep[u] + 1;
            let child_size = self.dfs1(v, g);
            if child_size > max_size {
                self.heavy_child[u] = Some(v);
                max_size = child_size;
            }
            size += child_size;
"""))
r("hl_dfs2_order", "C12", hl, ("""        self.head[u] = head;
        self.pos[u] = *timer;
        *timer += 1;
""", """        self.pos[u] = *timer;
        self.head[u] = head;
        *timer += 1;
"""))
r("hl_new_order", "C12", hl, ("""        res.parent[root] = root;
        res.dfs1(root, g);
        let mut timer = 0;
        res.dfs2(root, root, &mut timer, g);
""", """        let mut timer = 0;
        res.parent[root] = root;
        res.dfs1(root, g);
        res.dfs2(root, root, &mut timer, g);
"""))
r("hl_subtree_tmp", "C12", hl, ("""        self.data.apply_range(self.pos[u], self.pos_r[u], f);
""", """        let (l, r) = (self.pos[u], self.pos_r[u]);
        self.data.apply_range(l, r, f);
"""))
r("hl_path_helper", "C12", hl, ("""        if self.pos[u] > self.pos[v] {
            swap(&mut u, &mut v);
        }
        res = T::binary_operation(&res, &self.data.prod(self.pos[u], self.pos[v] + 1));
        res
    }
""", """        let (a, b) = self.ordered(u, v);
        T::binary_operation(&res, &self.data.prod(a, b + 1))
    }

    fn ordered(&self, u: usize, v: usize) -> (usize, usize) {
        let (a, b) = (self.pos[u], self.pos[v]);
        if a > b { (b, a) } else { (a, b) }
    }
"""))
r("tj_dfs_order", "C14", tj, ("""        self.order[u] = self.pos;
        self.low[u] = self.pos;
        self.pos += 1;
        self.stack.push(u);
        self.on_stack[u] = true;
""", """        self.stack.push(u);
        self.on_stack[u] = true;
        self.low[u] = self.pos;
        self.order[u] = self.pos;
        self.pos += 1;
"""))
r("tj_pop_order", "C14", tj, ("""                let v = self.stack.pop().unwrap();
                self.on_stack[v] = false;
                self.component.last_mut().unwrap().push(v);
""", """                let v = self.stack.pop().unwrap();
                self.component.last_mut().unwrap().push(v);
                self.on_stack[v] = false;
"""))
r("tj_idx", "C14", tj, ("""        for &v in &g[u] {
            if self.order[v] == -1 {
""", """        for i in 0..g[u].len() {
            let v = g[u][i];
            if self.order[v] == -1 {
"""))
r("mf_add_edge", "C15", mfl, ("""        self.g[u].push(self.e.len());
        self.e.push(Edge { to: v, cap});
        self.g[v].push(self.e.len());
        self.e.push(Edge { to: u, cap: Cap::zero()});
""", """        let id = self.e.len();
        self.e.push(Edge { to: v, cap});
        self.e.push(Edge { to: u, cap: Cap::zero()});
        self.g[u].push(id);
        self.g[v].push(id + 1);
"""))
r("mf_dfs_order", "C15", mfl, ("""                self.e[j].cap -= a;
                self.e[j ^ 1].cap += a;
                r -= a;
""", """                r -= a;
                self.e[j ^ 1].cap += a;
                self.e[j].cap -= a;
"""))
r("mf_bfs_order", "C15", mfl, ("""        let mut q = VecDeque::new();
        self.h[s] = 0;
        q.push_back(s);
""", """        self.h[s] = 0;
        let mut q = VecDeque::new();
        q.push_back(s);
"""))
r("mf_loop", "C15", mfl, ("""        while self.bfs(s, t) {
            self.cur.fill(0);
            ans += self.dfs(s, t, Cap::max_value());
        }
        ans
""", """        loop {
            if !self.bfs(s, t) {
                return ans;
            }
            self.cur.fill(0);
            ans += self.dfs(s, t, Cap::max_value());
        }
"""))
r("mf_bfs_idx", "C15", mfl, ("""                let Edge{to: v, cap: c} = self.e[i];
                if c > Cap::zero() && self.h[v] == -1 {
                    self.h[v] = self.h[u] + 1;
""", """                let v = self.e[i].to;
                if self.h[v] == -1 && self.e[i].cap > Cap::zero() {
                    self.h[v] = self.h[u] + 1;
"""))
r("ac_insert_nested", "C24", ah, ("""            if self.nodes[p].next[idx] == 0 {
                self.nodes[p].next[idx] = self.nodes.len();
                self.nodes.push(Node::new());
            }
            p = self.nodes[p].next[idx];
""", """            if self.nodes[p].next[idx] == 0 {
                let fresh = self.nodes.len();
                self.nodes.push(Node::new());
                self.nodes[p].next[idx] = fresh;
            }
            p = self.nodes[p].next[idx];
"""))
r("ac_insert_order", "C24", ah, ("""        self.nodes[p].end = Some(i);
        self.nodes[p].nmatches += 1;
""", """        self.nodes[p].nmatches += 1;
        self.nodes[p].end = Some(i);
"""))
r("ac_build_order", "C24", ah, ("""                        self.nodes[v].back = fail;
                        self.nodes[v].output = if self.nodes[fail].end.is_some() {
                            Some(fail)
                        } else {
                            self.nodes[fail].output
                        };
                        q.push_back(v);
""", """                        q.push_back(v);
                        self.nodes[v].output = if self.nodes[fail].end.is_some() {
                            Some(fail)
                        } else {
                            self.nodes[fail].output
                        };
                        self.nodes[v].back = fail;
"""))
r("ac_build_match", "C24", ah, ("""                        self.nodes[v].output = if self.nodes[fail].end.is_some() {
                            Some(fail)
                        } else {
                            self.nodes[fail].output
                        };
""", """                        self.nodes[v].output = match self.nodes[fail].end {
                            Some(_) => Some(fail),
                            None => self.nodes[fail].output,
                        };
"""))
r("ac_cnt_helper", "C24", ah, ("""        for &c in text {
            p = self.nodes[p].next[(c - OFFSET) as usize];
            if let Some(x) = self.nodes[p].end {
                cnt[x] += 1;
            }
            let mut idx = self.nodes[p].output;
            while let Some(x) = idx {
                cnt[self.nodes[x].end.unwrap()] += 1;
                idx = self.nodes[x].output;
            }
        }
        cnt
""", """        for &c in text {
            p = self.step(p, c);
            if let Some(x) = self.nodes[p].end {
                cnt[x] += 1;
            }
            let mut idx = self.nodes[p].output;
            while let Some(x) = idx {
                let id = self.nodes[x].end.unwrap();
                cnt[id] += 1;
                idx = self.nodes[x].output;
            }
        }
        cnt
    }

    fn step(&self, p: usize, c: u8) -> usize {
        self.nodes[p].next[(c - OFFSET) as usize]
"""))
r("ac_find_loop", "C24", ah, ("""        let n = text.len();
        let mut p = 0;
        (0..n)
            .into_iter()
            .map(|i| {
                p = self.nodes[p].next[(text[i] - OFFSET) as usize];
                self.nodes[p].end
            })
            .collect()
""", """        let mut p = 0;
        let mut res = vec![];
        for i in 0..text.len() {
            p = self.nodes[p].next[(text[i] - OFFSET) as usize];
            res.push(self.nodes[p].end);
        }
        res
"""))
r("lz_push_tmp", "C06 C07", lz, ("""        self.all_apply(2 * k, self.lz[k].clone());
        self.all_apply(2 * k + 1, self.lz[k].clone());
        self.lz[k] = F::identity_map();
""", """        let f = self.lz[k].clone();
        self.all_apply(2 * k, f.clone());
        self.all_apply(2 * k + 1, f);
        self.lz[k] = F::identity_map();
"""))
r("lz_push_order", "C06 C07", lz, ("""        self.all_apply(2 * k, self.lz[k].clone());
        self.all_apply(2 * k + 1, self.lz[k].clone());
""", """        self.all_apply(2 * k + 1, self.lz[k].clone());
        self.all_apply(2 * k, self.lz[k].clone());
"""))
r("lz_push_path", "C06", lz, ("""        for i in (1..=self.log).rev() {
            self.push(p >> i);
        }
        self.d[p] = x;
""", """        self.push_path(p);
        self.d[p] = x;
"""), ("""    fn update(&mut self, k: usize) {""", """    fn push_path(&mut self, p: usize) {
        for i in (1..=self.log).rev() {
            self.push(p >> i);
        }
    }
    fn update(&mut self, k: usize) {"""))
r("lz_set_shadow", "C06", lz, ("""    pub fn set(&mut self, mut p: usize, x: <F::M as Monoid>::S) {
        assert!(p < self.n);
        p += self.size;
""", """    pub fn set(&mut self, p: usize, x: <F::M as Monoid>::S) {
        assert!(p < self.n);
        let p = p + self.size;
"""))
r("lz_prod_order", "C06", lz, ("""            if ((l >> i) << i) != l {
                self.push(l >> i);
            }
            if ((r >> i) << i) != r {
                self.push(r >> i);
            }
""", """            if ((r >> i) << i) != r {
                self.push(r >> i);
            }
            if ((l >> i) << i) != l {
                self.push(l >> i);
            }
"""))
r("lz_apply_all_order", "C06", lz, ("""        self.d[k] = F::mapping(&f, &self.d[k]);
        if k < self.size {
            self.lz[k] = F::composition(&f, &self.lz[k]);
        }
""", """        if k < self.size {
            self.lz[k] = F::composition(&f, &self.lz[k]);
        }
        self.d[k] = F::mapping(&f, &self.d[k]);
"""))
r("lz_range_norestore", "C06", lz, ("""        {
            let l2 = l;
            let r2 = r;
            while l < r {
                if l & 1 != 0 {
                    self.all_apply(l, f.clone());
                    l += 1;
                }
                if r & 1 != 0 {
                    r -= 1;
                    self.all_apply(r, f.clone());
                }
                l >>= 1;
                r >>= 1;
            }
            l = l2;
            r = r2;
        }
""", """        let (mut a, mut b) = (l, r);
        while a < b {
            if a & 1 != 0 {
                self.all_apply(a, f.clone());
                a += 1;
            }
            if b & 1 != 0 {
                b -= 1;
                self.all_apply(b, f.clone());
            }
            a >>= 1;
            b >>= 1;
        }
"""))
r("lz_maxright_tmp", "C07", lz, ("""            if !g(F::binary_operation(&sm, &self.d[l])) {
                while l < self.size {""", """            let next = F::binary_operation(&sm, &self.d[l]);
            if !g(next.clone()) {
                while l < self.size {"""), ("""            sm = F::binary_operation(&sm, &self.d[l]);
            l += 1;
            if l & l.wrapping_neg() == l {""", """            sm = next;
            l += 1;
            if l & l.wrapping_neg() == l {"""))
r("sg_minleft_loop", "C05", sg2, ("""        while {
            // do
            r -= 1;
            while r > 1 && r % 2 == 1 {
                r >>= 1;
            }
""", """        loop {
            r -= 1;
            while r > 1 && r % 2 == 1 {
                r >>= 1;
            }
"""), ("""            sm = M::binary_operation(&self.d[r], &sm);
            // while
            {
                let r = r as isize;
                (r & -r) != r
            }
        } {}
        0
""", """            sm = M::binary_operation(&self.d[r], &sm);
            let x = r as isize;
            if (x & -x) == x {
                break;
            }
        }
        0
"""))
r("sg_minleft_pow2", "C05", sg2, ("""            {
                let r = r as isize;
                (r & -r) != r
            }
""", """            !r.is_power_of_two()
"""))
r("sg_maxright_tmp", "C05", sg2, ("""            if !f(&M::binary_operation(&sm, &self.d[l])) {
""", """            let next = M::binary_operation(&sm, &self.d[l]);
            if !f(&next) {
"""), ("""            sm = M::binary_operation(&sm, &self.d[l]);
            l += 1;
            // while
""", """            sm = next;
            l += 1;
            // while
"""))
r("im_safe_mod", "C18 C19 C20", im, ("""    x %= m;
    if x < 0 {
        x += m;
    }
    x
""", """    x %= m;
    if x < 0 {
        return x + m;
    }
    x
"""))
r("im_mul_z", "C19", im, ("""    let mut z = a as u64;
    z *= b as u64;
    let x""", """    let z = (a as u64) * (b as u64);
    let x"""))
r("im_inv_tmp", "C20", im, ("""        s -= t * u;
        m0 -= m1 * u; // |m1 * u| <= |m1| * s <= b
""", """        m0 -= m1 * u; // |m1 * u| <= |m1| * s <= b
        s -= t * u;
"""))
r("im_inv_swap", "C20", im, ("""        swap(&mut s, &mut t);
        swap(&mut m0, &mut m1);
""", """        swap(&mut m0, &mut m1);
        swap(&mut s, &mut t);
"""))
r("mi_add_if", "C18 C19", mi, ("""        let mut val = lhs.val() + rhs.val();
        if val >= modulus {
            val -= modulus;
        }
        Self::raw(val)
""", """        let val = lhs.val() + rhs.val();
        if val >= modulus {
            Self::raw(val - modulus)
        } else {
            Self::raw(val)
        }
"""))
r("mi_sub_cmp", "C18 C19", mi, ("""        let mut val = lhs.val().wrapping_sub(rhs.val());
        if val >= modulus {
            val = val.wrapping_add(modulus)
        }
        Self::raw(val)
""", """        let (a, b) = (lhs.val(), rhs.val());
        if a >= b {
            Self::raw(a - b)
        } else {
            Self::raw(a + (modulus - b))
        }
"""))
r("mi_pow_order", "C18 C19", mi, ("""        let mut x = self;
        let mut r = Self::new(1u32);
        while n > 0 {
            if n & 1 == 1 {
                r *= x;
            }
            x *= x;
            n >>= 1;
        }
        r
""", """        let mut r = Self::new(1u32);
        let mut x = self;
        while n != 0 {
            if n % 2 == 1 {
                r *= x;
            }
            n /= 2;
            x *= x;
        }
        r
"""))
r("mi_mul_tmp", "C18", mi, ("""        Self::raw((u64::from(lhs.val()) * u64::from(rhs.val()) % u64::from(M::VALUE)) as u32)
""", """        let product = u64::from(lhs.val()) * u64::from(rhs.val());
        Self::raw((product % u64::from(M::VALUE)) as u32)
"""))
r("mi_neg", "C18 C19", mi, ("""        Self::sub_impl(Self::raw(0), this)
""", """        if this.val() == 0 {
            this
        } else {
            Self::raw(Self::modulus() - this.val())
        }
"""))
r("mi_inv_let", "C20", mi, ("""        let (gcd, x) = inv_gcd(this.val().into(), Self::modulus().into());
        if gcd != 1 {
            panic!("the multiplicative inverse does not exist");
        }
        Self::new(x)
""", """        let modulus = Self::modulus();
        let (gcd, x) = inv_gcd(this.val().into(), modulus.into());
        if gcd == 1 {
            Self::new(x)
        } else {
            panic!("the multiplicative inverse does not exist");
        }
"""))
r("mi_update_order", "C19", mi, ("""        let im = (-1i64 as u64 / m as u64).wrapping_add(1);
        self.m.store(m, atomic::Ordering::SeqCst);
        self.im.store(im, atomic::Ordering::SeqCst);
""", """        self.m.store(m, atomic::Ordering::SeqCst);
        let im = (u64::MAX / u64::from(m)).wrapping_add(1);
        self.im.store(im, atomic::Ordering::SeqCst);
"""))
r("fw_pp_tmp", "C03", fw2, ("""            if next <= self.n && pred(&(sum.clone() + self.ary[next - 1].clone())) {
                sum += self.ary[next - 1].clone();
                pos = next;
            }
""", """            if next > self.n {
                continue;
            }
            let candidate = sum.clone() + self.ary[next - 1].clone();
            if pred(&candidate) {
                sum = candidate;
                pos = next;
            }
"""))
r("fw_pp_order", "C03", fw2, ("""                sum += self.ary[next - 1].clone();
                pos = next;
""", """                pos = next;
                sum += self.ary[next - 1].clone();
"""))
r("bm_dfs_idx", "C13", bm2, ("""        for &v in &g[u] {
            if r[v].is_none() {
                l[u] = Some(v);
                r[v] = Some(u);
""", """        for &v in g[u].iter() {
            if r[v] == None {
                r[v] = Some(u);
                l[u] = Some(v);
"""))
r("bm_solve_while", "C13", bm2, ("""        loop {
            let mut ok = false;
            self.vis.fill(false);
""", """        let mut ok = true;
        while ok {
            ok = false;
            self.vis.fill(false);
"""), ("""            if !ok {
                break;
            }
        }
        let mut ret = 0;
""", """        }
        let mut ret = 0;
"""))
r("bm_solve_if", "C13", bm2, ("""                if self.l[i].is_none() {
                    ok |= Self::dfs(i, &self.g, &mut self.vis, &mut self.l, &mut self.r);
                }
""", """                if self.l[i].is_none() && Self::dfs(i, &self.g, &mut self.vis, &mut self.l, &mut self.r) {
                    ok = true;
                }
"""))
r("st_from_tmp", "C08", "data_structure/sparse_table", ("""            let bound = n - (1 << c);
            for i in 0..=bound {
                data[c][i] = op(data[c - 1][i], data[c - 1][i + (1 << (c - 1))]);
            }
""", """            let half = 1 << (c - 1);
            for i in 0..=n - 2 * half {
                let left = data[c - 1][i];
                let right = data[c - 1][i + half];
                data[c][i] = op(left, right);
            }
"""))
r("dj_relax", "C10", "graph/shortest_path", ("""            if dis[v].is_none() || unsafe { dis[v].unwrap_unchecked() } > d + c {
                dis[v] = Some(d + c);
                q.push((d + c, v));
            }
""", """            let nd = d + c;
            let better = match dis[v] {
                None => true,
                Some(old) => old > nd,
            };
            if better {
                q.push((nd, v));
                dis[v] = Some(nd);
            }
"""))
r("dj_init", "C10", "graph/shortest_path", ("""    let mut q = MinHeap::new();
    q.push((0, s));
    dis[s] = Some(0);
""", """    dis[s] = Some(0);
    let mut q = MinHeap::new();
    q.push((0, s));
"""))
r("bl_dfs_last", "C11", bl2, ("""        self.pa[u][0] = p;
        for i in 1..self.level {
            self.pa[u][i] = self.pa[self.pa[u][i - 1]][i - 1];
        }
""", """        self.pa[u][0] = p;
        for i in 1..self.level {
            let half = self.pa[u][i - 1];
            self.pa[u][i] = self.pa[half][i - 1];
        }
"""))
r("bl_lca_while", "C11", bl2, ("""        for i in (0..self.level).rev() {
            if !self.is_ancestor(self.pa[u][i], v) {
                u = self.pa[u][i];
            }
        }
        self.pa[u][0]
""", """        let mut i = self.level;
        while i > 0 {
            i -= 1;
            let up = self.pa[u][i];
            if !self.is_ancestor(up, v) {
                u = up;
            }
        }
        self.pa[u][0]
"""))
r("z_while_order", "C22", "string/z_algorithm", ("""        if i + z[i] - 1 > r {
            l = i;
            r = i + z[i] - 1;
        }
""", """        let end = i + z[i] - 1;
        if end > r {
            r = end;
            l = i;
        }
"""))
r("z_min_if", "C22", "string/z_algorithm", ("""            z[i] = (r - i + 1).min(z[i - l]);
""", """            z[i] = std::cmp::min(z[i - l], r - i + 1);
"""))
r("kmp_match", "C23", "string/kmp", ("""        if s[i] ==  s[j] {
            j += 1;
        }
        pi[i] = j;
""", """        pi[i] = if s[i] == s[j] { j + 1 } else { j };
"""))
r("kmp_helper", "C23", "string/kmp", ("""        let mut j = pi[i - 1];
        while j > 0 && s[i] != s[j] {
            j = pi[j - 1];
        }
        if s[i] ==  s[j] {
            j += 1;
        }
        pi[i] = j;
    }
    pi
}
""", """        pi[i] = next_border(s, &pi, i);
    }
    pi
}

fn next_border<T: std::cmp::PartialEq>(s: &[T], pi: &[usize], i: usize) -> usize {
    let mut j = pi[i - 1];
    while j > 0 && s[i] != s[j] {
        j = pi[j - 1];
    }
    if s[i] == s[j] {
        j += 1;
    }
    j
}
"""))

# ---- loops over collections rewritten as index loops, and the other way round
r("it_dj", "C10", "graph/shortest_path", ("        for &(v, c) in &g[u] {\n", "        for k in 0..g[u].len() {\n            let (v, c) = g[u][k];\n"))
r("it_dj_iter", "C10", "graph/shortest_path", ("        for &(v, c) in &g[u] {\n", "        for e in g[u].iter() {\n            let (v, c) = *e;\n"))
r("it_dj_next", "C10", "graph/shortest_path", ("            if dis[v].is_none() || unsafe { dis[v].unwrap_unchecked() } > d + c {\n                dis[v] = Some(d + c);\n                q.push((d + c, v));\n            }", "            let next = d + c;\n            let better = match dis[v] {\n                None => true,\n                Some(old) => old > next,\n            };\n            if better {\n                q.push((next, v));\n                dis[v] = Some(next);\n            }"))
ac = "string/aho_corasick"
r("it_ac_all", "C24", ac, ("        for (i, &c) in text.iter().enumerate() {\n", "        for i in 0..text.len() {\n            let c = text[i];\n"))
r("it_ac_cnt", "C24", ac, ("        for &c in text {\n            p = self.nodes[p].next[(c - OFFSET) as usize];\n            if let Some(x) = self.nodes[p].end {\n                cnt[x] += 1;", "        for i in 0..text.len() {\n            let c = text[i];\n            p = self.nodes[p].next[(c - OFFSET) as usize];\n            if let Some(x) = self.nodes[p].end {\n                cnt[x] += 1;"))
r("it_ac_insert", "C24", ac, ("        for c in s {\n            let idx = (*c - OFFSET) as usize;", "        for &c in s {\n            let idx = (c - OFFSET) as usize;"))
r("it_ac_insert_idx", "C24", ac, ("        for c in s {\n            let idx = (*c - OFFSET) as usize;", "        for k in 0..s.len() {\n            let idx = (s[k] - OFFSET) as usize;"))
r("it_ac_find", "C24", ac, ("        let n = text.len();\n        let mut p = 0;\n        (0..n)\n            .into_iter()\n            .map(|i| {\n                p = self.nodes[p].next[(text[i] - OFFSET) as usize];\n                self.nodes[p].end\n            })\n            .collect()", "        let mut p = 0;\n        let mut found = Vec::with_capacity(text.len());\n        for &c in text {\n            p = self.nodes[p].next[(c - OFFSET) as usize];\n            found.push(self.nodes[p].end);\n        }\n        found"))
r("it_ac_chain", "C24", ac, ("            while let Some(x) = idx {\n                cnt[self.nodes[x].end.unwrap()] += 1;\n                idx = self.nodes[x].output;\n            }", "            loop {\n                match idx {\n                    None => break,\n                    Some(x) => {\n                        cnt[self.nodes[x].end.unwrap()] += 1;\n                        idx = self.nodes[x].output;\n                    }\n                }\n            }"))
r("it_tj", "C14", "graph/tarjan", ("        for &v in &g[u] {\n", "        for k in 0..g[u].len() {\n            let v = g[u][k];\n"))
r("it_tj_iter", "C14", "graph/tarjan", ("        for &v in &g[u] {\n", "        for v in g[u].iter().copied() {\n"))
r("it_tj_while", "C14", "graph/tarjan", ("            loop {\n                let v = self.stack.pop().unwrap();\n                self.on_stack[v] = false;\n                self.component.last_mut().unwrap().push(v);\n                if u == v {\n                    break;\n                }\n            }", "            while let Some(v) = self.stack.pop() {\n                self.on_stack[v] = false;\n                self.component.last_mut().unwrap().push(v);\n                if u == v {\n                    break;\n                }\n            }"))
r("it_bm", "C13", "graph/bipartite_matching", ("        for &v in &g[u] {\n            if Self::dfs(", "        for k in 0..g[u].len() {\n            let v = g[u][k];\n            if Self::dfs("))
r("it_bm_ret", "C13", "graph/bipartite_matching", ("        let mut ret = 0;\n        for i in 0..self.l.len() {\n            if self.l[i].is_some() {\n                ret += 1;\n            }\n        }\n        ret", "        let mut ret = 0;\n        for x in &self.l {\n            if x.is_some() {\n                ret += 1;\n            }\n        }\n        ret"))
r("it_bm_filter", "C13", "graph/bipartite_matching", ("        let mut ret = 0;\n        for i in 0..self.l.len() {\n            if self.l[i].is_some() {\n                ret += 1;\n            }\n        }\n        ret", "        self.l.iter().filter(|x| x.is_some()).count()"))
hl = "graph/heavy_light_decomp"
r("it_hl1", "C12", hl, ("        for &v in &g[u] {\n            if v != self.parent[u] {\n", "        for k in 0..g[u].len() {\n            let v = g[u][k];\n            if v != self.parent[u] {\n"))
r("it_hl2", "C12", hl, ("        for &v in &g[u] {\n            if v != self.parent[u] && Some(v) != self.heavy_child[u] {\n                self.dfs2(v, v, timer, g);\n            }\n        }", "        for k in 0..g[u].len() {\n            let v = g[u][k];\n            if v == self.parent[u] || Some(v) == self.heavy_child[u] {\n                continue;\n            }\n            self.dfs2(v, v, timer, g);\n        }"))
r("it_hl_match", "C12", hl, ("        let v = self.heavy_child[u];\n        if v.is_some() {\n            self.dfs2(v.unwrap(), head, timer, g);\n        }\n", "        match self.heavy_child[u] {\n            Some(v) => self.dfs2(v, head, timer, g),\n            None => {}\n        }\n"))
r("it_hl_init", "C12", hl, ("        for i in 0..v.len() {\n            a[res.pos[i]] = v[i].clone();\n        }", "        for (i, x) in v.iter().enumerate() {\n            a[res.pos[i]] = x.clone();\n        }"))
r("it_bl", "C11", "graph/binary_lifting", ("        for &v in &g[u] {\n            if v != p {\n", "        for k in 0..g[u].len() {\n            let v = g[u][k];\n            if v != p {\n"))
r("it_bl_pa", "C11", "graph/binary_lifting", ("        for i in 1..self.level {\n            self.pa[u][i] = self.pa[self.pa[u][i - 1]][i - 1];\n        }", "        for i in 1..self.level {\n            let half = self.pa[u][i - 1];\n            self.pa[u][i] = self.pa[half][i - 1];\n        }"))
r("it_bl_anc", "C11", "graph/binary_lifting", ("        self.tin[v] >= self.tin[u] && self.tin[v] < self.tout[u]", "        (self.tin[u]..self.tout[u]).contains(&self.tin[v])"))
r("it_mf", "C15", "graph/max_flow", ("        let mut i = self.cur[u];\n        while i < self.g[u].len() {\n", "        let mut i = self.cur[u];\n        let deg = self.g[u].len();\n        while i < deg {\n"))
r("it_mf_vars", "C15", "graph/max_flow", ("            let j = self.g[u][i];\n            let Edge{to: v, cap: c} = self.e[j];\n            if c > Cap::zero() && self.h[v] == self.h[u] + 1 {", "            let j = self.g[u][i];\n            let v = self.e[j].to;\n            let c = self.e[j].cap;\n            if c > Cap::zero() && self.h[v] == self.h[u] + 1 {"))
r("it_mf_sum", "C15", "graph/max_flow", ("        while self.bfs(s, t) {\n            self.cur.fill(0);\n            ans += self.dfs(s, t, Cap::max_value());\n        }", "        while self.bfs(s, t) {\n            for c in 0..self.n {\n                self.cur[c] = 0;\n            }\n            let flow = self.dfs(s, t, Cap::max_value());\n            ans += flow;\n        }"))
sg = "data_structure/segtree"
r("it_sg_set", "C04", sg, ("        for i in 1..=self.log {\n            self.update(p >> i);\n        }", "        while p > 1 {\n            p >>= 1;\n            self.update(p);\n        }"))
r("it_sg_from", "C04", sg, ("        for i in (1..size).rev() {\n            ret.update(i);\n        }", "        let mut i = size;\n        while i > 1 {\n            i -= 1;\n            ret.update(i);\n        }"))
r("it_sg_prod", "C04", sg, ("            l >>= 1;\n            r >>= 1;\n        }\n\n        M::", "            l /= 2;\n            r /= 2;\n        }\n\n        M::"))
r("it_sg_right", "C05", sg, ("            if !f(&M::binary_operation(&sm, &self.d[l])) {\n                while", "            let whole = M::binary_operation(&sm, &self.d[l]);\n            if !f(&whole) {\n                while"))
r("it_st", "C08", "data_structure/sparse_table", ("            let bound = n - (1 << c);\n            for i in 0..=bound {", "            for i in 0..n + 1 - (1 << c) {"))
r("it_st_half", "C08", "data_structure/sparse_table", ("            for i in 0..=bound {\n                data[c][i] = op(data[c - 1][i], data[c - 1][i + (1 << (c - 1))]);\n            }", "            let half = 1 << (c - 1);\n            for i in 0..=bound {\n                let left = data[c - 1][i];\n                let right = data[c - 1][i + half];\n                data[c][i] = op(left, right);\n            }"))
r("it_fa", "C21", "math/factorial", ("        for i in (0..n).rev() {\n            inv_fac[i] = inv_fac[i + 1] * (i + 1);\n        }", "        for i in (1..=n).rev() {\n            inv_fac[i - 1] = inv_fac[i] * i;\n        }"))
r("it_fa_while", "C21", "math/factorial", ("        for i in 1..=n {\n            factorial[i] = factorial[i - 1] * i;\n        }", "        let mut i = 1;\n        while i <= n {\n            factorial[i] = factorial[i - 1] * i;\n            i += 1;\n        }"))
r("it_kmp", "C23", "string/kmp", ("        while j > 0 && s[i] != s[j] {\n            j = pi[j - 1];\n        }\n        if s[i] ==  s[j] {\n            j += 1;\n        }\n        pi[i] = j;", "        loop {\n            if s[i] == s[j] {\n                j += 1;\n                break;\n            }\n            if j == 0 {\n                break;\n            }\n            j = pi[j - 1];\n        }\n        pi[i] = j;"))
r("it_z", "C22", "string/z_algorithm", ("        while i + z[i] < n && s[z[i]] == s[i + z[i]] {\n            z[i] += 1;\n        }\n        if i + z[i] - 1 > r {\n            l = i;\n            r = i + z[i] - 1;\n        }", "        let mut k = z[i];\n        while i + k < n && s[k] == s[i + k] {\n            k += 1;\n        }\n        z[i] = k;\n        if i + k - 1 > r {\n            l = i;\n            r = i + k - 1;\n        }"))
r("it_uf_groups", "C01", "data_structure/union_find", ("            result[self.find(i)].push(i);", "            let root = self.find(i);\n            result[root].push(i);"))
r("it_uf_retain", "C01", "data_structure/union_find", ("        result\n            .into_iter()\n            .filter(|x| !x.is_empty())\n            .collect::<Vec<Vec<usize>>>()", "        let mut out = vec![];\n        for x in result {\n            if !x.is_empty() {\n                out.push(x);\n            }\n        }\n        out"))
r("it_fw_from", "C02", "data_structure/fenwick_tree", ("        for i in 1..=n {\n            obj.ary[i - 1] += a[i - 1].clone();\n            let j = i + (i & i.wrapping_neg());\n            if j <= n {\n                let tmp = obj.ary[i - 1];\n                obj.ary[j - 1] += tmp;\n            }\n        }", "        for i in 0..n {\n            obj.ary[i] += a[i].clone();\n            let j = i + ((i + 1) & (i + 1).wrapping_neg());\n            if j < n {\n                let tmp = obj.ary[i];\n                obj.ary[j] += tmp;\n            }\n        }"))
r("it_fw_add", "C02", "data_structure/fenwick_tree", ("        let n = self.n;\n        idx += 1;\n        while idx <= n {\n            self.ary[idx - 1] += val.clone();\n            idx += idx & idx.wrapping_neg();\n        }", "        let mut i = idx + 1;\n        while i <= self.n {\n            self.ary[i - 1] += val.clone();\n            i += i & i.wrapping_neg();\n        }"), ("    pub fn add<U: Clone>(&mut self, mut idx: usize, val: U)", "    pub fn add<U: Clone>(&mut self, idx: usize, val: U)"))
nt = "math/number_theory"
r("it_gcd", "C16", nt, ("    while b != T::zero() {\n        let t = b;\n        b = a % b;\n        a = t;\n    }\n    a\n}\n\npub fn lcm", "    while b != T::zero() {\n        a %= b;\n        std::mem::swap(&mut a, &mut b);\n    }\n    a\n}\n\npub fn lcm"))
r("it_gcd_rec", "C16", nt, ("pub fn gcd<T: Integral>(mut a: T, mut b: T) -> T {\n    while b != T::zero() {\n        let t = b;\n        b = a % b;\n        a = t;\n    }\n    a\n}", "pub fn gcd<T: Integral>(a: T, b: T) -> T {\n    if b == T::zero() {\n        a\n    } else {\n        gcd(b, a % b)\n    }\n}"))
r("it_crt_zip", "C17", nt, ("        let (a_, mut b_, mut m_) = (a[i] * lcm, b[i] - a[i] * x, m[i]);\n", "        let ai = a[i];\n        let (a_, mut b_, mut m_) = (ai * lcm, b[i] - ai * x, m[i]);\n"))
r("it_crt_tail", "C17", nt, ("    if x < 0 {\n        x += lcm;\n    }\n    Some((x, lcm))", "    let ans = if x < 0 { x + lcm } else { x };\n    Some((ans, lcm))"))
r("it_lz_all", "C06 C07", "data_structure/lazy_segtree", ("        for i in (1..=self.log).rev() {\n            self.push(p >> i);\n        }\n        self.d[p] = x;", "        let mut i = self.log;\n        while i > 0 {\n            self.push(p >> i);\n            i -= 1;\n        }\n        self.d[p] = x;"))
r("it_mh_pop", "C09", "data_structure/min_heap", ("        match self.0.pop() {\n            Some(x) => Some(x.0),\n            None => None,\n        }", "        let Reverse(x) = self.0.pop()?;\n        Some(x)"))
r("it_mh_peek", "C09", "data_structure/min_heap", ("        match self.0.peek() {\n            Some(x) => Some(&x.0),\n            None => None,\n        }", "        self.0.peek().map(|x| &x.0)"))
r("it_in_checked", "C27", "misc/input", ("        match self.iter.next() {\n            Some(x) => Some(x.parse::<T>().ok().unwrap()),\n            None => None\n        }", "        let x = self.iter.next()?;\n        Some(x.parse::<T>().ok().unwrap())"))
r("it_in_vec", "C27", "misc/input", ("        (0..n).map(|_| self.read()).collect()", "        let mut v = Vec::with_capacity(n);\n        while v.len() < n {\n            v.push(self.read());\n        }\n        v"))

# ---- helpers extracted, control flow restated
r("x_uf_root", "C01", "data_structure/union_find", ("        let fx = self.find(x);\n        self.sz[fx]\n    }\n", "        self.root_size(x)\n    }\n\n    fn root_size(&mut self, x: usize) -> usize {\n        let root = self.find(x);\n        self.sz[root]\n    }\n"))
r("x_uf_check", "C01", "data_structure/union_find", ("        assert!(x < self.n);\n        assert!(y < self.n);\n        let (mut fx, mut fy) = (self.find(x), self.find(y));", "        self.check(x);\n        self.check(y);\n        let (mut fx, mut fy) = (self.find(x), self.find(y));"), ("    pub fn size(", "    fn check(&self, x: usize) {\n        assert!(x < self.n);\n    }\n\n    pub fn size("))
r("x_uf_same", "C01", "data_structure/union_find", ("        let (mut fx, mut fy) = (self.find(x), self.find(y));\n        if fx == fy {\n            return false;\n        }\n        if self.sz", "        if self.is_same(x, y) {\n            return false;\n        }\n        let (mut fx, mut fy) = (self.find(x), self.find(y));\n        if self.sz"))
r("x_uf_find_early", "C01", "data_structure/union_find", ("        if self.fa[i] == i {\n            i\n        } else {\n            self.fa[i] = self.find(self.fa[i]);\n            self.fa[i]\n        }", "        let parent = self.fa[i];\n        if parent == i {\n            return i;\n        }\n        let root = self.find(parent);\n        self.fa[i] = root;\n        root"))
r("x_uf_link", "C01", "data_structure/union_find", ("        if self.sz[fx] > self.sz[fy] {\n            std::mem::swap(&mut fx, &mut fy);\n        }\n        self.fa[fx] = fy;\n        self.sz[fy] += self.sz[fx];\n        true\n    }\n", "        if self.sz[fx] > self.sz[fy] {\n            std::mem::swap(&mut fx, &mut fy);\n        }\n        self.link(fx, fy);\n        true\n    }\n\n    fn link(&mut self, child: usize, root: usize) {\n        self.sz[root] += self.sz[child];\n        self.fa[child] = root;\n    }\n"))
r("x_fw_low", "C02", "data_structure/fenwick_tree", ("    pub fn from(a: &[T])", "    fn low_bit(i: usize) -> usize {\n        i & i.wrapping_neg()\n    }\n\n    pub fn from(a: &[T])"), ("let j = i + (i & i.wrapping_neg());", "let j = i + Self::low_bit(i);"), ("            idx += idx & idx.wrapping_neg();", "            idx += Self::low_bit(idx);"))
r("x_fw_idx", "C02", "data_structure/fenwick_tree", ("    pub fn add<U: Clone>(&mut self, mut idx: usize, val: U)", "    pub fn add<U: Clone>(&mut self, idx: usize, val: U)"), ("        let n = self.n;\n        idx += 1;\n        while idx <= n {\n            self.ary[idx - 1] += val.clone();\n            idx += idx & idx.wrapping_neg();\n        }", "        let mut i = idx + 1;\n        while i <= self.n {\n            self.ary[i - 1] += val.clone();\n            i += i & i.wrapping_neg();\n        }"))
r("x_fw_pp_let", "C03", "data_structure/fenwick_tree", ("            if next <= self.n && pred(&(sum.clone() + self.ary[next - 1].clone())) {\n                sum += self.ary[next - 1].clone();\n                pos = next;\n            }", "            if next > self.n {\n                continue;\n            }\n            let candidate = sum.clone() + self.ary[next - 1].clone();\n            if pred(&candidate) {\n                sum = candidate;\n                pos = next;\n            }"))
r("x_sg_leaf", "C04", "data_structure/segtree", ("        p += self.size;\n        self.d[p] = x;\n        for i in 1..=self.log {\n            self.update(p >> i);\n        }\n    }\n", "        p += self.size;\n        self.d[p] = x;\n        self.update_ancestors(p);\n    }\n\n    fn update_ancestors(&mut self, p: usize) {\n        for i in 1..=self.log {\n            self.update(p >> i);\n        }\n    }\n"))
r("x_sg_shadow", "C04", "data_structure/segtree", ("    pub fn prod(&self, mut l: usize, mut r: usize) -> M::S {\n        assert!(l <= r && r <= self.n);\n        let mut sml = M::identity();\n        let mut smr = M::identity();\n        l += self.size;\n        r += self.size;\n", "    pub fn prod(&self, l: usize, r: usize) -> M::S {\n        assert!(l <= r);\n        assert!(r <= self.n);\n        let (mut l, mut r) = (l + self.size, r + self.size);\n        let mut sml = M::identity();\n        let mut smr = M::identity();\n"))
r("x_sg_edge", "C05", "data_structure/segtree", ("            {\n                let l = l as isize;\n                (l & -l) != l\n            }", "            !Self::at_edge(l)"), ("            {\n                let r = r as isize;\n                (r & -r) != r\n            }", "            !Self::at_edge(r)"), ("    fn update(&mut self, k: usize) {", "    fn at_edge(k: usize) -> bool {\n        let k = k as isize;\n        (k & -k) == k\n    }\n\n    fn update(&mut self, k: usize) {"))
r("x_sg_next", "C05", "data_structure/segtree", ("            if !f(&M::binary_operation(&sm, &self.d[l])) {\n                while l < self.size {\n                    l *= 2;", "            let next = M::binary_operation(&sm, &self.d[l]);\n            if !f(&next) {\n                while l < self.size {\n                    l *= 2;"), ("            sm = M::binary_operation(&sm, &self.d[l]);\n            l += 1;\n            // while", "            sm = next;\n            l += 1;\n            // while"))
r("x_sg_right_helper", "C05", "data_structure/segtree", ("                while l < self.size {\n                    l *= 2;\n                    let res = M::binary_operation(&sm, &self.d[l]);\n                    if f(&res) {\n                        sm = res;\n                        l += 1;\n                    }\n                }\n                return l - self.size;", "                return self.descend_right(l, sm, &f);"), ("    fn update(&mut self, k: usize) {", "    fn descend_right<F>(&self, mut l: usize, mut sm: M::S, f: &F) -> usize\n    where\n        F: Fn(&M::S) -> bool,\n    {\n        while l < self.size {\n            l *= 2;\n            let res = M::binary_operation(&sm, &self.d[l]);\n            if f(&res) {\n                sm = res;\n                l += 1;\n            }\n        }\n        l - self.size\n    }\n\n    fn update(&mut self, k: usize) {"))
r("x_lz_push_all", "C06 C07", "data_structure/lazy_segtree", ("        p += self.size;\n        for i in (1..=self.log).rev() {\n            self.push(p >> i);\n        }\n        self.d[p] = x;", "        p += self.size;\n        self.push_to(p);\n        self.d[p] = x;"), ("        p += self.size;\n        for i in (1..=self.log).rev() {\n            self.push(p >> i);\n        }\n        self.d[p].clone()", "        p += self.size;\n        self.push_to(p);\n        self.d[p].clone()"), ("    fn all_apply(", "    fn push_to(&mut self, p: usize) {\n        for i in (1..=self.log).rev() {\n            self.push(p >> i);\n        }\n    }\n    fn all_apply("))
r("x_lz_aligned", "C06", "data_structure/lazy_segtree", ("        for i in 1..=self.log {\n            if ((l >> i) << i) != l {\n                self.update(l >> i);\n            }\n            if ((r >> i) << i) != r {\n                self.update((r - 1) >> i);\n            }\n        }", "        for i in 1..=self.log {\n            let l_inside = ((l >> i) << i) != l;\n            let r_inside = ((r >> i) << i) != r;\n            if l_inside {\n                self.update(l >> i);\n            }\n            if r_inside {\n                self.update((r - 1) >> i);\n            }\n        }"))
r("x_lz_take", "C06", "data_structure/lazy_segtree", ("        self.all_apply(2 * k, self.lz[k].clone());\n        self.all_apply(2 * k + 1, self.lz[k].clone());\n        self.lz[k] = F::identity_map();", "        let f = std::mem::replace(&mut self.lz[k], F::identity_map());\n        self.all_apply(2 * k, f.clone());\n        self.all_apply(2 * k + 1, f);"))
r("x_lz_leaf_return", "C06", "data_structure/lazy_segtree", ("        self.d[k] = F::mapping(&f, &self.d[k]);\n        if k < self.size {\n            self.lz[k] = F::composition(&f, &self.lz[k]);\n        }", "        self.d[k] = F::mapping(&f, &self.d[k]);\n        if k >= self.size {\n            return;\n        }\n        self.lz[k] = F::composition(&f, &self.lz[k]);"))
r("x_lz_min_end", "C07", "data_structure/lazy_segtree", ("        for i in (1..=self.log).rev() {\n            self.push((r - 1) >> i);\n        }", "        if r < 2 * self.size {\n            for i in (1..=self.log).rev() {\n                self.push((r - 1) >> i);\n            }\n        }"))
r("x_st_level", "C08", "data_structure/sparse_table", ("        let c = lg(r - l) as usize;\n        (self.op)(self.data[c][l], self.data[c][r - (1 << c)])", "        let row = &self.data[lg(r - l) as usize];\n        let width = 1 << lg(r - l) as usize;\n        (self.op)(row[l], row[r - width])"))
r("x_st_push", "C08", "data_structure/sparse_table", ("            let bound = n - (1 << c);\n            for i in 0..=bound {\n                data[c][i] = op(data[c - 1][i], data[c - 1][i + (1 << (c - 1))]);\n            }", "            let half = 1 << (c - 1);\n            let bound = n - 2 * half;\n            for i in 0..=bound {\n                data[c][i] = op(data[c - 1][i], data[c - 1][i + half]);\n            }"))
r("x_dj_cand", "C10", "graph/shortest_path", ("            if dis[v].is_none() || unsafe { dis[v].unwrap_unchecked() } > d + c {\n                dis[v] = Some(d + c);\n                q.push((d + c, v));\n            }", "            let candidate = d + c;\n            let better = match dis[v] {\n                None => true,\n                Some(old) => candidate < old,\n            };\n            if better {\n                dis[v] = Some(candidate);\n                q.push((candidate, v));\n            }"))
r("x_bl_level", "C11", "graph/binary_lifting", ("        self.pa[u][0] = p;\n        for i in 1..self.level {\n            self.pa[u][i] = self.pa[self.pa[u][i - 1]][i - 1];\n        }\n", "        self.fill_ancestors(u, p);\n"), ("    pub fn is_ancestor", "    fn fill_ancestors(&mut self, u: usize, p: usize) {\n        self.pa[u][0] = p;\n        for i in 1..self.level {\n            let half = self.pa[u][i - 1];\n            self.pa[u][i] = self.pa[half][i - 1];\n        }\n    }\n\n    pub fn is_ancestor"))
r("x_bl_range", "C11", "graph/binary_lifting", ("        self.tin[v] >= self.tin[u] && self.tin[v] < self.tout[u]", "        (self.tin[u]..self.tout[u]).contains(&self.tin[v])"))
r("x_bl_dis", "C11", "graph/binary_lifting", ("        self.dep[u] - self.dep[l] + self.dep[v] - self.dep[l]", "        let up = self.dep[u] - self.dep[l];\n        let down = self.dep[v] - self.dep[l];\n        up + down"))
r("x_hl_climb", "C12", "graph/heavy_light_decomp", ("            res = T::binary_operation(&res, &self.data.prod(self.pos[self.head[u]], self.pos[u] + 1));\n            u = self.parent[self.head[u]];", "            let top = self.head[u];\n            let part = self.data.prod(self.pos[top], self.pos[u] + 1);\n            res = T::binary_operation(&res, &part);\n            u = self.parent[top];"))
r("x_hl_return", "C12", "graph/heavy_light_decomp", ("        res = T::binary_operation(&res, &self.data.prod(self.pos[u], self.pos[v] + 1));\n        res", "        let last = self.data.prod(self.pos[u], self.pos[v] + 1);\n        T::binary_operation(&res, &last)"))
r("x_hl_heavy_match", "C12", "graph/heavy_light_decomp", ("        let v = self.heavy_child[u];\n        if v.is_some() {\n            self.dfs2(v.unwrap(), head, timer, g);\n        }", "        match self.heavy_child[u] {\n            Some(v) => self.dfs2(v, head, timer, g),\n            None => {}\n        }"))
r("x_bm_link", "C13", "graph/bipartite_matching", ("            if r[v].is_none() {\n                l[u] = Some(v);\n                r[v] = Some(u);\n                return true;\n            }", "            if r[v].is_none() {\n                Self::link(u, v, l, r);\n                return true;\n            }"), ("            if Self::dfs(r[v].unwrap(), g, vis, l, r) {\n                l[u] = Some(v);\n                r[v] = Some(u);\n                return true;\n            }", "            if Self::dfs(r[v].unwrap(), g, vis, l, r) {\n                Self::link(u, v, l, r);\n                return true;\n            }"), ("    pub fn solve(", "    fn link(u: usize, v: usize, l: &mut Vec<Option<usize>>, r: &mut Vec<Option<usize>>) {\n        l[u] = Some(v);\n        r[v] = Some(u);\n    }\n\n    pub fn solve("))
r("x_bm_while", "C13", "graph/bipartite_matching", ("        loop {\n            let mut ok = false;\n            self.vis.fill(false);", "        let mut ok = true;\n        while ok {\n            ok = false;\n            self.vis.fill(false);"), ("            if !ok {\n                break;\n            }\n        }\n        let mut ret", "        }\n        let mut ret"))
r("x_bm_filter", "C13", "graph/bipartite_matching", ("        let mut ret = 0;\n        for i in 0..self.l.len() {\n            if self.l[i].is_some() {\n                ret += 1;\n            }\n        }\n        ret", "        self.l.iter().filter(|x| x.is_some()).count()"))
r("x_tj_enter", "C14", "graph/tarjan", ("        self.order[u] = self.pos;\n        self.low[u] = self.pos;\n        self.pos += 1;\n        self.stack.push(u);\n        self.on_stack[u] = true;\n", "        self.enter(u);\n"), ("    fn dfs(&mut self, u: usize", "    fn enter(&mut self, u: usize) {\n        self.order[u] = self.pos;\n        self.low[u] = self.pos;\n        self.pos += 1;\n        self.stack.push(u);\n        self.on_stack[u] = true;\n    }\n    fn dfs(&mut self, u: usize"))
r("x_tj_comp", "C14", "graph/tarjan", ("            self.component.push(vec![]);\n            loop {\n                let v = self.stack.pop().unwrap();\n                self.on_stack[v] = false;\n                self.component.last_mut().unwrap().push(v);\n                if u == v {\n                    break;\n                }\n            }", "            let mut members = vec![];\n            loop {\n                let v = self.stack.pop().unwrap();\n                self.on_stack[v] = false;\n                members.push(v);\n                if u == v {\n                    break;\n                }\n            }\n            self.component.push(members);"))
r("x_mf_push", "C15", "graph/max_flow", ("                self.e[j].cap -= a;\n                self.e[j ^ 1].cap += a;\n                r -= a;", "                self.push_flow(j, a);\n                r -= a;"), ("    pub fn add_edge", "    fn push_flow(&mut self, j: usize, a: Cap) {\n        self.e[j].cap -= a;\n        self.e[j ^ 1].cap += a;\n    }\n\n    pub fn add_edge"))
r("x_mf_cont", "C15", "graph/max_flow", ("                if c > Cap::zero() && self.h[v] == -1 {\n                    self.h[v] = self.h[u] + 1;\n                    if v == t {\n                        return true;\n                    }\n                    q.push_back(v);\n                }", "                if c <= Cap::zero() || self.h[v] != -1 {\n                    continue;\n                }\n                self.h[v] = self.h[u] + 1;\n                if v == t {\n                    return true;\n                }\n                q.push_back(v);"))
r("x_mf_loop", "C15", "graph/max_flow", ("        while self.bfs(s, t) {\n            self.cur.fill(0);\n            ans += self.dfs(s, t, Cap::max_value());\n        }", "        loop {\n            if !self.bfs(s, t) {\n                break;\n            }\n            self.cur.fill(0);\n            let flow = self.dfs(s, t, Cap::max_value());\n            ans += flow;\n        }"))
r("x_fa_build", "C21", "math/factorial", ("        factorial[0] = StaticModInt::from(1);\n        for i in 1..=n {\n            factorial[i] = factorial[i - 1] * i;\n        }", "        factorial[0] = StaticModInt::from(1);\n        for i in 0..n {\n            factorial[i + 1] = factorial[i] * (i + 1);\n        }"))
r("x_fa_choose", "C21", "math/factorial", ("        self.factorial[n] * self.inv_fac[n - k] * self.inv_fac[k]", "        self.perm(n, k) * self.inv_fac[k]"))
r("x_z_box", "C22", "string/z_algorithm", ("        if i + z[i] - 1 > r {\n            l = i;\n            r = i + z[i] - 1;\n        }", "        let end = i + z[i] - 1;\n        if end > r {\n            (l, r) = (i, end);\n        }"))
r("x_z_ext", "C22", "string/z_algorithm", ("        while i + z[i] < n && s[z[i]] == s[i + z[i]] {\n            z[i] += 1;\n        }", "        z[i] = extend(s, i, z[i]);"), ("pub fn z_function", "fn extend<T: std::cmp::PartialEq>(s: &[T], i: usize, mut len: usize) -> usize {\n    while i + len < s.len() && s[len] == s[i + len] {\n        len += 1;\n    }\n    len\n}\n\npub fn z_function"))
r("x_kmp_border", "C23", "string/kmp", ("        let mut j = pi[i - 1];\n        while j > 0 && s[i] != s[j] {\n            j = pi[j - 1];\n        }\n        if s[i] ==  s[j] {\n            j += 1;\n        }\n        pi[i] = j;", "        let mut border = pi[i - 1];\n        while border > 0 && s[border] != s[i] {\n            border = pi[border - 1];\n        }\n        pi[i] = if s[border] == s[i] { border + 1 } else { 0 };"))
r("x_im_root", "C26", "math/internal_math", ("    while n != 0 {\n        if (n & 1) > 0 {\n            r = (r * y) % (_m as u64);\n        }", "    while n > 0 {\n        if n % 2 == 1 {\n            r = r * y % (_m as u64);\n        }"))
r("x_mi_sub", "C18 C19", "misc/modint", ("        let mut val = lhs.val().wrapping_sub(rhs.val());\n        if val >= modulus {\n            val = val.wrapping_add(modulus)\n        }\n        Self::raw(val)", "        let val = if lhs.val() >= rhs.val() {\n            lhs.val() - rhs.val()\n        } else {\n            modulus - (rhs.val() - lhs.val())\n        };\n        Self::raw(val)"))
r("x_mi_bar", "C19", "misc/modint", ("    fn update(&self, m: u32) {\n        let im = (-1i64 as u64 / m as u64).wrapping_add(1);\n        self.m.store(m, atomic::Ordering::SeqCst);\n        self.im.store(im, atomic::Ordering::SeqCst);", "    fn update(&self, m: u32) {\n        self.im.store((u64::MAX / m as u64).wrapping_add(1), atomic::Ordering::SeqCst);\n        self.m.store(m, atomic::Ordering::SeqCst);"))
r("x_mi_inv", "C20", "misc/modint", ("        let (gcd, x) = inv_gcd(this.val().into(), Self::modulus().into());\n        if gcd != 1 {\n            panic!(\"the multiplicative inverse does not exist\");\n        }\n        Self::new(x)", "        match inv_gcd(this.val().into(), Self::modulus().into()) {\n            (1, x) => Self::new(x),\n            _ => panic!(\"the multiplicative inverse does not exist\"),\n        }"))

# ---- temporaries, hoisted calls, conditions restated
r("y_uf_groups", "C01", "data_structure/union_find", ("        let mut result = vec![vec![]; self.n];\n        for i in 0..self.n {\n            result[self.find(i)].push(i);\n        }", "        let n = self.n;\n        let mut result = vec![vec![]; n];\n        for i in 0..n {\n            let root = self.find(i);\n            result[root].push(i);\n        }"))
r("y_uf_join_cmp", "C01", "data_structure/union_find", ("        if self.sz[fx] > self.sz[fy] {\n            std::mem::swap(&mut fx, &mut fy);\n        }", "        let (sx, sy) = (self.sz[fx], self.sz[fy]);\n        if sy < sx {\n            std::mem::swap(&mut fx, &mut fy);\n        }"))
r("y_fw_from_val", "C02", "data_structure/fenwick_tree", ("            if j <= n {\n                let tmp = obj.ary[i - 1];\n                obj.ary[j - 1] += tmp;\n            }", "            if j > n {\n                continue;\n            }\n            let block = obj.ary[i - 1];\n            obj.ary[j - 1] += block;"))
r("y_fw_pref_loop", "C02", "data_structure/fenwick_tree", ("        while idx > 0 {\n            sum += self.ary[idx - 1].clone();\n            idx &= idx - 1;\n        }\n        sum", "        while idx != 0 {\n            let block = self.ary[idx - 1];\n            sum += block;\n            idx = idx & (idx - 1);\n        }\n        sum"))
r("y_fw_sum", "C02", "data_structure/fenwick_tree", ("        self.pref(r) - self.pref(l)", "        let left = self.pref(l);\n        let right = self.pref(r);\n        right - left"))
r("y_sg_prod_tmp", "C04", "data_structure/segtree", ("            if r & 1 != 0 {\n                r -= 1;\n                smr = M::binary_operation(&self.d[r], &smr);\n            }", "            if r % 2 == 1 {\n                r -= 1;\n                let next = M::binary_operation(&self.d[r], &smr);\n                smr = next;\n            }"))
r("y_sg_update", "C04", "data_structure/segtree", ("        self.d[k] = M::binary_operation(&self.d[2 * k], &self.d[2 * k + 1]);", "        let left = &self.d[2 * k];\n        let right = &self.d[2 * k + 1];\n        let value = M::binary_operation(left, right);\n        self.d[k] = value;"))
r("y_sg_build", "C04", "data_structure/segtree", ("        for i in (1..size).rev() {\n            ret.update(i);\n        }", "        let mut i = size - 1;\n        while i >= 1 {\n            ret.update(i);\n            i -= 1;\n        }"))
r("y_lz_map", "C06", "data_structure/lazy_segtree", ("        self.d[p] = F::mapping(&f, &self.d[p]);\n        for i in 1..=self.log {", "        let mapped = F::mapping(&f, &self.d[p]);\n        self.d[p] = mapped;\n        for i in 1..=self.log {"))
r("y_lz_range_tmp", "C06", "data_structure/lazy_segtree", ("                if r & 1 != 0 {\n                    r -= 1;\n                    self.all_apply(r, f.clone());\n                }\n                l >>= 1;\n                r >>= 1;\n            }\n            l = l2;", "                if r & 1 == 1 {\n                    r -= 1;\n                    let g = f.clone();\n                    self.all_apply(r, g);\n                }\n                l /= 2;\n                r /= 2;\n            }\n            l = l2;"))
r("y_lz_max_tmp", "C07", "data_structure/lazy_segtree", ("            if !g(F::binary_operation(&sm, &self.d[l])) {", "            let next = F::binary_operation(&sm, &self.d[l]);\n            if !g(next) {"))
r("y_lz_max_pow", "C07", "data_structure/lazy_segtree", ("            if l & l.wrapping_neg() == l {\n                break;\n            }", "            let low = l & l.wrapping_neg();\n            if low == l {\n                break;\n            }"))
r("y_st_rows", "C08", "data_structure/sparse_table", ("                data[c][i] = op(data[c - 1][i], data[c - 1][i + (1 << (c - 1))]);", "                let left = data[c - 1][i];\n                let right = data[c - 1][i + (1 << (c - 1))];\n                let value = op(left, right);\n                data[c][i] = value;"))
r("y_dj_skip", "C10", "graph/shortest_path", ("        if Some(d) != dis[u] {\n            continue;\n        }\n        for &(v, c) in &g[u] {\n            if dis[v].is_none() || unsafe { dis[v].unwrap_unchecked() } > d + c {\n                dis[v] = Some(d + c);\n                q.push((d + c, v));\n            }\n        }", "        if dis[u] == Some(d) {\n            for &(v, c) in &g[u] {\n                if dis[v].is_none() || unsafe { dis[v].unwrap_unchecked() } > d + c {\n                    dis[v] = Some(d + c);\n                    q.push((d + c, v));\n                }\n            }\n        }"))
r("y_bl_timer", "C11", "graph/binary_lifting", ("        self.tin[u] = *timer;\n        *timer += 1;", "        let start = *timer;\n        self.tin[u] = start;\n        *timer = start + 1;"))
r("y_bl_lca", "C11", "graph/binary_lifting", ("            if !self.is_ancestor(self.pa[u][i], v) {\n                u = self.pa[u][i];\n            }", "            let up = self.pa[u][i];\n            if self.is_ancestor(up, v) {\n                continue;\n            }\n            u = up;"))
r("y_bl_dep", "C11", "graph/binary_lifting", ("            if v != p {\n                self.dep[v] = self.dep[u] + 1;\n                self.dfs(g, v, u, timer)\n            }", "            if v == p {\n                continue;\n            }\n            let depth = self.dep[u] + 1;\n            self.dep[v] = depth;\n            self.dfs(g, v, u, timer);"))
r("y_hl_child", "C12", "graph/heavy_light_decomp", ("                if child_size > max_size {\n                    max_size = child_size;\n                    self.heavy_child[u] = Some(v);\n                }", "                if child_size <= max_size {\n                    continue;\n                }\n                self.heavy_child[u] = Some(v);\n                max_size = child_size;"))
r("y_hl_apply", "C12", "graph/heavy_light_decomp", ("            self.data.apply_range(self.pos[self.head[u]], self.pos[u] + 1, f.clone());\n            u = self.parent[self.head[u]];", "            let top = self.head[u];\n            let (from, to) = (self.pos[top], self.pos[u] + 1);\n            self.data.apply_range(from, to, f.clone());\n            u = self.parent[top];"))
r("y_hl_light", "C12", "graph/heavy_light_decomp", ("            if v != self.parent[u] && Some(v) != self.heavy_child[u] {\n                self.dfs2(v, v, timer, g);\n            }", "            if v == self.parent[u] || self.heavy_child[u] == Some(v) {\n                continue;\n            }\n            self.dfs2(v, v, timer, g);"))
r("y_bm_dfs", "C13", "graph/bipartite_matching", ("            if Self::dfs(r[v].unwrap(), g, vis, l, r) {\n                l[u] = Some(v);\n                r[v] = Some(u);\n                return true;\n            }", "            let owner = r[v].unwrap();\n            let moved = Self::dfs(owner, g, vis, l, r);\n            if moved {\n                l[u] = Some(v);\n                r[v] = Some(u);\n                return true;\n            }"))
r("y_bm_ok", "C13", "graph/bipartite_matching", ("                    ok |= Self::dfs(i, &self.g, &mut self.vis, &mut self.l, &mut self.r);", "                    let found = Self::dfs(i, &self.g, &mut self.vis, &mut self.l, &mut self.r);\n                    if found {\n                        ok = true;\n                    }"))
r("y_tj_low", "C14", "graph/tarjan", ("            if self.on_stack[v] {\n                self.low[u] = self.low[u].min(self.low[v]);\n            }", "            if self.on_stack[v] && self.low[v] < self.low[u] {\n                self.low[u] = self.low[v];\n            }"))
r("y_tj_scc", "C14", "graph/tarjan", ("            graph.dfs(i, g);\n        }\n    }\n    let mut color = vec![0; n];\n    let cnt = graph.component.len();", "            graph.dfs(i, g);\n        }\n    }\n    let cnt = graph.component.len();\n    let mut color = vec![0; n];"))
r("y_mf_dfs", "C15", "graph/max_flow", ("                let a = self.dfs(v, t, r.min(c));\n                self.e[j].cap -= a;\n                self.e[j ^ 1].cap += a;\n                r -= a;", "                let limit = r.min(c);\n                let a = self.dfs(v, t, limit);\n                r -= a;\n                self.e[j ^ 1].cap += a;\n                self.e[j].cap -= a;"))
r("y_mf_bfs", "C15", "graph/max_flow", ("                    self.h[v] = self.h[u] + 1;\n                    if v == t {", "                    let level = self.h[u] + 1;\n                    self.h[v] = level;\n                    if v == t {"))
r("y_nt_lcm", "C16", "math/number_theory", ("pub fn lcm", "/// Least common multiple.\npub fn lcm"))
r("y_fa_while", "C21", "math/factorial", ("        inv_fac[n] = factorial[n].inv();\n        for i in (0..n).rev() {\n            inv_fac[i] = inv_fac[i + 1] * (i + 1);\n        }", "        let last = factorial[n];\n        inv_fac[n] = last.inv();\n        for i in (0..n).rev() {\n            let k = i + 1;\n            inv_fac[i] = inv_fac[k] * k;\n        }"))
r("y_z_min", "C22", "string/z_algorithm", ("            z[i] = (r - i + 1).min(z[i - l]);", "            let inside = r - i + 1;\n            let mirrored = z[i - l];\n            z[i] = if mirrored < inside { mirrored } else { inside };"))
r("y_kmp_cond", "C23", "string/kmp", ("        while j > 0 && s[i] != s[j] {\n            j = pi[j - 1];\n        }", "        while j > 0 {\n            if s[i] == s[j] {\n                break;\n            }\n            j = pi[j - 1];\n        }"))
r("y_mi_add", "C18 C19", "misc/modint", ("        let mut val = lhs.val() + rhs.val();\n        if val >= modulus {\n            val -= modulus;\n        }\n        Self::raw(val)", "        let sum = lhs.val() + rhs.val();\n        let val = if sum < modulus { sum } else { sum - modulus };\n        Self::raw(val)"))
r("y_mi_pow", "C18", "misc/modint", ("            if n & 1 == 1 {\n                r *= x;\n            }\n            x *= x;\n            n >>= 1;", "            if n % 2 == 1 {\n                r = r * x;\n            }\n            x = x * x;\n            n /= 2;"))
r("y_im_inv", "C20", "math/internal_math", ("        let u = s / t;\n        s -= t * u;\n        m0 -= m1 * u;", "        let u = s / t;\n        s = s - t * u;\n        m0 = m0 - m1 * u;"))
