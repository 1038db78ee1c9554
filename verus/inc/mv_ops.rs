impl<K: Ident, V: Variant<Key = K>> Multiverse<K, V> {
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]>, V: serde::de::DeserializeOwned + serde::Serialize, | new_with
    //@spec
        ensures
            r.wf(), r.state() =~= Map::<K, Node<K, V>>::empty(), r.all@ =~= Map::<K, Entry<K, V>>::empty(), r.tree@ == db.tree(domain@), r.store_from == store_from,
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]>, V: serde::de::DeserializeOwned + serde::Serialize, | temporary
    //@spec
        ensures r matches Ok(m) ==> m.wf() && m.exact() && m.state() =~= Map::<K, Node<K, V>>::empty() && m.store_from.0 == 0
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]>, V: serde::de::DeserializeOwned + serde::Serialize, | db_remove
    //@hint start
        broadcast use {from_storage, from_encoding};
    //@spec
        ensures
            final(self).same_mem(*old(self)),
            r matches Ok(b) ==> final(self).tree@ == old(self).tree@.remove(key_of(counter.0, *key)) && b == old(self).tree@.contains_key(key_of(counter.0, *key)),
            r matches Err(e) ==> e is Storage && (final(self).tree@ == old(self).tree@ || final(self).tree@ == old(self).tree@.remove(key_of(counter.0, *key))),
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]>, V: serde::de::DeserializeOwned + serde::Serialize, | db_insert
    //@hint start
        broadcast use {from_storage, from_encoding};
    //@use mv
    //@rewrite self . store_from <= counter => self.store_from.le(&counter)
    //@spec
        ensures
            final(self).same_mem(*old(self)),
            r matches Ok(b) ==> if old(self).store_from.0 <= counter.0 {
                final(self).tree@ == old(self).tree@.insert(key_of(counter.0, *key), json(*value)) && b == !old(self).tree@.contains_key(key_of(counter.0, *key))
            } else { final(self).tree@ == old(self).tree@ && !b },
            r matches Err(e) ==> !(e is NotFound) && (final(self).tree@ == old(self).tree@ || (old(self).store_from.0 <= counter.0 && final(self).tree@ == old(self).tree@.insert(key_of(counter.0, *key), json(*value)))),
    //@end
    pub open spec fn same_mem(self, o: Self) -> bool { self.all == o.all && self.ordered == o.ordered && self.tips == o.tips && self.roots == o.roots && self.store_from == o.store_from }
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]>, V: serde::de::DeserializeOwned + serde::Serialize, | clear
    //@use mv
    //@spec
        ensures r is Ok ==> final(self).wf() && final(self).exact() && final(self).state() =~= Map::<K, Node<K, V>>::empty()
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> | is_empty
    //@spec
        ensures r == (self.state() =~= Map::<K, Node<K, V>>::empty())
    //@hint start
        proof { assert(self.state().dom() =~= self.all@.dom()); if self.state() =~= Map::<K, Node<K, V>>::empty() { assert(self.all@ =~= Map::<K, Entry<K, V>>::empty()); } }
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> | len
    //@spec
        ensures r == self.state().dom().len()
    //@hint start
        proof { assert(self.state().dom() =~= self.all@.dom()); }
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]> + Eq + Hash, | contains
    //@spec
        ensures r == self.state().contains_key(*key)
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: Eq + Hash, | tips
    //@rewrite self . $t! . iter ( ) . map ( | e | $f ) . collect ( ) => { let __a = self.$t.iter(); let ghost __s = __a@; let __b = __a.map(|e: &EntryRef<K>| -> (r: Arc<K>) ensures r@ == e@ { $f }); proof { lemma_mapped(self.$t@, __s, __b@); } __b.collect() }
    //@spec
        ensures forall|k: K| #[trigger] r.ids().contains(k) <==> self.tips@.contains(k)
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]> + Eq + Hash + fmt::Debug + Clone, V: Variant<Key = K>, | get
    //@desugar opt.map
    //@spec
        ensures
            r is Some <==> self.state().contains_key(*key),
            r matches Some(v) ==> *v == self.state()[*key].value,
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]> + Eq + Hash + fmt::Debug + Clone, V: Variant<Key = K>, | insert_in_memory
    //@use mv
    //@spec
        requires old(self).mem(), !old(self).state().contains_key(variant.id_of())
        ensures
            r is Ok, final(self).mem(), final(self).state() =~= inserted(old(self).state(), variant),
            final(self).tree == old(self).tree, final(self).store_from == old(self).store_from,
            forall|k: K| #[trigger] final(self).all@.contains_key(k) <==> old(self).all@.contains_key(k) || k == variant.id_of(),
            forall|k: K| #[trigger] old(self).all@.contains_key(k) ==> final(self).all@[k].value == old(self).all@[k].value,
            final(self).all@[variant.id_of()].value == variant,
    //@hint start
        let ghost id = variant.id_of();
        let ghost o = *old(self);
        let ghost v0 = variant;
        proof { assert(o.state().dom() =~= o.all@.dom()); }
    //@hint before Ok ( ( ) )
        proof {
            assert(self.all@.dom() =~= o.all@.dom().insert(id));
            let par = v0.parent_of();
            assert forall|k: K| #[trigger] self.all@.contains_key(k) implies self.all@[k].value.id_of() == k by {
                if k != id { assert(o.all@.contains_key(k)); }
            }
            assert forall|k: K| #[trigger] self.all@.contains_key(k) implies (self.all@[k].parent.target() matches Some(t) ==> t.0 != k && self.all@.contains_key(t.0) && self.all.cell(t.0) == t.1 && self.all@[t.0].children@.contains(k)) by {
                if k != id { assert(o.all@.contains_key(k)); } else { assert(o.all@.contains_key(par) || self.all@[k].parent.target() is None); }
            }
            assert forall|p: K, c: K| #[trigger] self.all@.contains_key(p) && #[trigger] self.all@[p].children@.contains(c) implies self.all@.contains_key(c) && self.all@[c].parent.link() == Some(p) by {
                if c != id { assert(o.all@.contains_key(p)); assert(o.all@[p].children@.contains(c)); assert(o.all@.contains_key(c)); } else { assert(p == par || !o.all@[p].children@.contains(c)); }
            }
            assert(self.links_ok());
            assert forall|k: K| #[trigger] self.tips@.contains(k) <==> self.all@.contains_key(k) && self.all@[k].children@ =~= Set::<K>::empty() by {
                if o.all@.contains_key(v0.parent_of()) { assert(self.all@[v0.parent_of()].children@.contains(id)); }
                if k == id { assert(self.all@[k].children@ =~= Set::<K>::empty()); }
            }
            assert forall|k: K| #[trigger] self.roots@.contains(k) <==> self.all@.contains_key(k) && self.all@[k].parent.target() is None by {}
            assert(self.ends_ok());
            let n = v0.number_of();
            assert(self.ordered@[n]@.contains(id));
            assert forall|j: u64| #[trigger] self.ordered@.contains_key(j) implies exists|k: K| self.ordered@[j]@.contains(k) by {
                if j != n { let k = choose|k: K| o.ordered@[j]@.contains(k); assert(self.ordered@[j]@.contains(k)); }
            }
            assert forall|j: u64, k: K| #[trigger] self.ordered@.contains_key(j) && #[trigger] self.ordered@[j]@.contains(k) implies self.all@.contains_key(k) && self.all@[k].value.number_of() == j by {
                if k != id { assert(o.ordered@.contains_key(j)); assert(o.ordered@[j]@.contains(k)); }
            }
            assert(self.order_ok());
            assert(self.state() =~= inserted(o.state(), v0));
        }
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]> + Eq + Hash + fmt::Debug + Clone, V: Variant<Key = K>, | insert
    //@use mv
    //@spec
        requires old(self).wf(), known(old(self).state(), variant)
        ensures
            final(self).wf(),
            r is Ok ==> final(self).state() =~= inserted(old(self).state(), variant) && (old(self).exact() ==> final(self).exact()),
            r is Err ==> final(self).state() == old(self).state(),
            final(self).store_from == old(self).store_from,
    //@hint start
        let ghost o = *old(self);
        let ghost v0 = variant;
        let ghost s = o.state();
        proof {
            assert(own_ids(s));
            lemma_put(s, o.store_from.0, o.tree@, v0);
            if !s.contains_key(v0.id_of()) { lemma_added(s, o.store_from.0, o.tree@, v0); }
            else { assert(to_store(s, o.store_from.0, v0.id_of()) <==> o.store_from.0 <= v0.number_of()); }
        }
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]> + Eq + Hash + fmt::Debug + Clone, V: Variant<Key = K>, | remove
    //@use mv
    //@rewrite in entry . children { => in entry.children.into_iter() {
    //@desugar for.it
    //@spec
        requires old(self).wf()
        ensures
            final(self).mem(), final(self).stored(), final(self).store_from == old(self).store_from,
            !old(self).state().contains_key(key@) ==> r is Err && r->Err_0 is NotFound && final(self).state() =~= old(self).state() && final(self).tree == old(self).tree,
            old(self).state().contains_key(key@) ==> {
                &&& is_removed(old(self).state(), key@, final(self).state())
                &&& r matches Ok(v) ==> v == old(self).state()[key@].value && (old(self).exact() ==> final(self).exact())
                &&& r matches Err(e) ==> e is Storage
            },
    //@hint start
        let ghost o = *old(self);
        let ghost id = key@;
        let ghost s = o.state();
    //@hint before self . roots . remove
        let ghost gone = entry;
    //@loop 0
        invariant_except_break
            o.mem(), o.all@.contains_key(id), gone == o.all@[id], s == o.state(),
            self.tips == o.tips, self.ordered == o.ordered, self.tree == o.tree, self.store_from == o.store_from,
            distinct(__it0@), forall|j: K| #[trigger] pending(__it0@, j) ==> gone.children@.contains(j),
            half_removed(o, id, *self, __it0@),
        ensures
            self.tips == o.tips, self.ordered == o.ordered, self.tree == o.tree, self.store_from == o.store_from,
            half_removed(o, id, *self, Seq::empty()),
        decreases __it0@.len()
    //@hint loop-start 0
        let ghost before = *self;
        let ghost todo = __it0@;
        proof { if todo.len() > 0 { lemma_pending(todo); assert(pending(todo, todo[0]@)); } else { assert(todo =~= Seq::empty()); } }
    //@hint loop-end 0
        proof {
            assert(half_removed(o, id, *self, todo.drop_first()));
            assert forall|j: K| #[trigger] pending(__it0@, j) implies gone.children@.contains(j) by { assert(pending(todo, j)); }
        }
    //@hint before return Err ( MultiverseError :: NotFound )
        proof { assert(self.all@ =~= o.all@); assert(self.state() =~= s); }
    //@hint after-loop 0
        let ghost half = *self;
    //@hint before self . db_remove
        proof {
            let n = gone.value.number_of();
            assert forall|j: K| #[trigger] self.all@.contains_key(j) <==> o.all@.contains_key(j) && j != id by {}
            assert forall|j: K| #[trigger] self.all@.contains_key(j) implies self.all@[j].value == o.all@[j].value && self.all@[j].parent == half.all@[j].parent
                && forall|c: K| #[trigger] self.all@[j].children@.contains(c) <==> o.all@[j].children@.contains(c) && c != id by
            {
                assert(half.all@.contains_key(j));
                if o.all@[j].children@.contains(id) { assert(o.all@[id].parent.link() == Some(j)); }
            }
            assert forall|j: K| #[trigger] self.all@.contains_key(j) implies (self.all@[j].parent.target() matches Some(t) ==> t.0 != j && self.all@.contains_key(t.0) && self.all.cell(t.0) == t.1 && self.all@[t.0].children@.contains(j)) by {
                assert(half.all@.contains_key(j) && o.all@.contains_key(j));
                if o.all@[j].parent.link() == Some(id) { assert(gone.children@.contains(j)); }
                else if gone.children@.contains(j) { assert(o.all@[j].parent.link() == Some(id)); }
                if self.all@[j].parent.target() is Some {
                    assert(self.all@[j].parent == o.all@[j].parent);
                    let t = o.all@[j].parent.target()->0;
                    assert(t.0 != id && o.all@.contains_key(t.0) && o.all.cell(t.0) == t.1);
                    assert(half.all@.contains_key(t.0) && half.all.cell(t.0) == t.1);
                    assert(self.all@.contains_key(t.0) && self.all.cell(t.0) == t.1);
                    assert(o.all@[t.0].children@.contains(j));
                    assert(self.all@[t.0].children@.contains(j));
                }
            }
            assert forall|p: K, c: K| #[trigger] self.all@.contains_key(p) && #[trigger] self.all@[p].children@.contains(c) implies self.all@.contains_key(c) && self.all@[c].parent.link() == Some(p) by {
                assert(o.all@.contains_key(p) && o.all@[p].children@.contains(c));
                assert(half.all@.contains_key(c));
                if gone.children@.contains(c) { assert(o.all@[c].parent.link() == Some(id)); }
            }
            assert(self.links_ok());
            assert forall|k: K| #[trigger] self.tips@.contains(k) <==> self.all@.contains_key(k) && self.all@[k].children@ =~= Set::<K>::empty() by {
                if o.all@.contains_key(k) && k != id {
                    assert(half.all@.contains_key(k));
                    assert(self.all@.contains_key(k));
                    if !(gone.parent.link() == Some(k)) {
                        assert(!o.all@[k].children@.contains(id)) by { if o.all@[k].children@.contains(id) { assert(gone.parent.link() == Some(k)); } }
                        assert(self.all@[k].children@ =~= o.all@[k].children@);
                    } else { assert(o.all@[k].children@.contains(id)); }
                }
            }
            assert forall|k: K| #[trigger] self.roots@.contains(k) <==> self.all@.contains_key(k) && self.all@[k].parent.target() is None by {
                if gone.children@.contains(k) { assert(o.all@.contains_key(k) && o.all@[k].parent.link() == Some(id)); }
                if self.all@.contains_key(k) { assert(half.all@.contains_key(k)); }
            }
            assert(self.ends_ok());
            assert forall|j: u64, k: K| #[trigger] self.ordered@.contains_key(j) && #[trigger] self.ordered@[j]@.contains(k) implies self.all@.contains_key(k) && self.all@[k].value.number_of() == j by {
                assert(o.ordered@.contains_key(j) && o.ordered@[j]@.contains(k));
                assert(o.all@.contains_key(k) && o.all@[k].value.number_of() == j);
                if k == id { assert(j == n); assert(!self.ordered@[n]@.contains(id)); }
                assert(self.all@.contains_key(k));
            }
            assert forall|k: K| #[trigger] self.all@.contains_key(k) implies self.ordered@.contains_key(self.all@[k].value.number_of()) && self.ordered@[self.all@[k].value.number_of()]@.contains(k) by {
                assert(o.all@.contains_key(k));
            }
            assert forall|j: u64| #[trigger] self.ordered@.contains_key(j) implies exists|k: K| self.ordered@[j]@.contains(k) by {
                assert(o.ordered@.contains_key(j));
                let k = choose|k: K| o.ordered@[j]@.contains(k);
                if j != n { assert(self.ordered@[j]@.contains(k)); }
                else if forall|k: K| !self.ordered@[j]@.contains(k) { assert(self.ordered@[j]@ =~= Set::<K>::empty()); }
            }
            assert(self.order_ok());
            assert(is_removed(s, id, self.state()));
            lemma_dropped(s, o.store_from.0, o.tree@, id, self.state());
        }
    //@end
}
pub open spec fn pending<K>(s: Seq<EntryRef<K>>, k: K) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == k }
pub open spec fn distinct<K>(s: Seq<EntryRef<K>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ != (#[trigger] s[j])@ }
pub proof fn lemma_pending<K>(s: Seq<EntryRef<K>>)
    requires s.len() > 0, distinct(s)
    ensures distinct(s.drop_first()), forall|k: K| #[trigger] pending(s, k) <==> k == s[0]@ || pending(s.drop_first(), k), !pending(s.drop_first(), s[0]@)
{
    let d = s.drop_first();
    assert forall|k: K| #[trigger] pending(s, k) <==> k == s[0]@ || pending(d, k) by {
        if pending(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == k; if i > 0 { assert(d[i - 1] == s[i]); } }
        if pending(d, k) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i])@ == k; assert(s[i + 1] == d[i]); }
        assert(s[0]@ == s[0]@);
    }
}
/// the block is out, and its children except those still to come are on their own
pub open spec fn half_removed<K: Ident, V: Variant<Key = K>>(o: Multiverse<K, V>, id: K, m: Multiverse<K, V>, todo: Seq<EntryRef<K>>) -> bool {
    let ch = o.all@[id].children@;
    &&& forall|j: K| #[trigger] m.all@.contains_key(j) <==> o.all@.contains_key(j) && j != id
    &&& forall|j: K| #[trigger] m.all@.contains_key(j) ==> m.all@[j].value == o.all@[j].value && m.all@[j].children == o.all@[j].children
        && (if ch.contains(j) && !pending(todo, j) { m.all@[j].parent.target() is None } else { m.all@[j].parent == o.all@[j].parent })
    &&& forall|j: K| #![trigger m.all.cell(j)] m.all@.contains_key(j) ==> m.all.cell(j) == o.all.cell(j)
    &&& forall|j: K| #[trigger] m.roots@.contains(j) <==> (j != id && o.roots@.contains(j)) || (ch.contains(j) && !pending(todo, j))
}
pub proof fn lemma_mapped<K>(m: Set<K>, s: Seq<&EntryRef<K>>, t: Seq<Arc<K>>)
    requires lists(m, s), s.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i])@ == s[i]@
    ensures forall|k: K| m.contains(k) <==> exists|i: int| 0 <= i < t.len() && (#[trigger] t[i])@ == k
{
    assert forall|k: K| m.contains(k) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i])@ == k by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == k;
        assert(t[i]@ == k);
    }
}
