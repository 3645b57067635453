include "REPO/examples/red-black.dfy"
module H_RB {
  // the tree's values in order; -1 marks a structural fault
  function InOrder(t: Node<int>): seq<int> { if t.Nil? then [] else InOrder(t.left) + [t.value] + InOrder(t.right) }
  function Height(t: Node<int>): int {   // black height, or -1 if paths differ
    if t.Nil? then 1 else
      var l := Height(t.left); var r := Height(t.right);
      if l < 0 || r < 0 || l != r then -1 else if t.color == Black then l + 1 else l
  }
  predicate NoRedRed(t: Node<int>) {
    t.Nil? || (NoRedRed(t.left) && NoRedRed(t.right)
      && (t.color == Red ==> (t.left.Nil? || t.left.color == Black) && (t.right.Nil? || t.right.color == Black)))
  }
  predicate Sorted(s: seq<int>) { forall i | 0 <= i < |s| - 1 :: s[i] <= s[i + 1] }
  lemma same_red(t: Node<int>) ensures RedNodesHaveBlackChildren(t) <==> NoRedRed(t) {}
  lemma same_black(t: Node<int>) ensures BlackCountOnAllPaths(t) ==> Height(t) >= 0 ensures Height(t) >= 0 && Strict(t) ==> BlackCountOnAllPaths(t) {}
  predicate Strict(t: Node<int>) { t.Nil? || (Strict(t.left) && Strict(t.right) && t.kc == Height(t)) }
  lemma same_order(t: Node<int>) ensures OrderedTree(t) <==> Sorted(InOrder(t)) ensures Contents(t) == multiset(InOrder(t)) {}
  method one(a: int, q: int) {
    var t := Insert(Nil, a); var c := Contains(t, q);
    assert InOrder(t) == [a] && Height(t) >= 0 && NoRedRed(t);
    assert c <==> q == a;
  }
  method three(a: int, b: int, c: int, q: int) {
    var t: Node<int> := Insert(Nil, a); t := Insert(t, b); t := Insert(t, c);
    assert Sorted(InOrder(t)) && multiset(InOrder(t)) == multiset{a, b, c};
    assert Height(t) >= 0 && NoRedRed(t);
    var e := Contains(t, q);
    assert e <==> q == a || q == b || q == c;
  }
  method four(a: int, b: int, c: int, d: int, q: int) {
    var t: Node<int> := Insert(Nil, a); t := Insert(t, b); t := Insert(t, c); t := Insert(t, d);
    assert Sorted(InOrder(t)) && multiset(InOrder(t)) == multiset{a, b, c, d};
    assert Height(t) >= 0 && NoRedRed(t);
    var e := Contains(t, q);
    assert e <==> q == a || q == b || q == c || q == d;
  }
  method {:thorough} five(a: int, b: int, c: int, d: int, f: int) {
    var t: Node<int> := Insert(Nil, a); t := Insert(t, b); t := Insert(t, c); t := Insert(t, d); t := Insert(t, f);
    assert Sorted(InOrder(t)) && multiset(InOrder(t)) == multiset{a, b, c, d, f};
    assert Height(t) >= 0 && NoRedRed(t);
  }
}
