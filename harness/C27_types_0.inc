    reg<>("");
    reg<A<S<O<>>, S<R<V>>>>("A(O()|R(V))");
    reg<A<S<O<V>>, S<R<V>>>>("A(O(V)|R(V))");
    reg<A<S<R<>>, S<O<V>>>>("A(R()|O(V))");
    reg<A<S<R<V>>, S<>>>("A(R(V)|)");
    reg<A<S<R<V>>, S<R<>>>>("A(R(V)|R())");
    reg<A<S<V, V>, S<>>>("A(VV|)");
    reg<A<S<V>, S<>>, O<V>>("A(V|)O(V)");
    reg<A<S<V>, S<O<>>>>("A(V|O())");
    reg<A<S<V>, S<V>>>("A(V|V)");
    reg<A<S<V>, S<V>>, R<V>>("A(V|V)R(V)");
    reg<A<S<V>, S<V>, S<V>>>("A(V|V|V)");
    reg<A<S<>, S<>>, O<>>("A(|)O()");
    reg<A<S<>, S<>>, V>("A(|)V");
    reg<A<S<>, S<R<V>>>>("A(|R(V))");
    reg<A<S<>, S<V>>, R<>>("A(|V)R()");
    reg<A<S<>, S<V>, S<>>>("A(|V|)");
    reg<O<>>("O()");
    reg<O<>, A<S<>, S<>>, O<R<V>>>("O()A(|)O(R(V))");
    reg<O<>, O<>, O<V>>("O()O()O(V)");
    reg<O<>, O<R<>>>("O()O(R())");
    reg<O<>, O<V>, O<V>>("O()O(V)O(V)");
    reg<O<>, O<V, V>>("O()O(VV)");
    reg<O<>, R<>, R<>>("O()R()R()");
    reg<O<>, R<V>, O<>>("O()R(V)O()");
    reg<O<>, R<V>, V>("O()R(V)V");
    reg<O<>, V, O<V>>("O()VO(V)");
    reg<O<A<S<V>, S<>>>>("O(A(V|))");
    reg<O<A<S<>, S<V>>>>("O(A(|V))");
    reg<O<O<>, V>>("O(O()V)");
    reg<O<O<V>, V>>("O(O(V)V)");
    reg<O<R<>>, O<R<V>>>("O(R())O(R(V))");
    reg<O<R<>>, V>("O(R())V");
    reg<O<R<>, R<V>>>("O(R()R(V))");
    reg<O<R<V>>, O<R<>>>("O(R(V))O(R())");
    reg<O<R<V>>, R<V>>("O(R(V))R(V)");
    reg<O<R<V>, R<>>>("O(R(V)R())");
    reg<O<V>>("O(V)");
    reg<O<V>, A<S<>, S<V>>>("O(V)A(|V)");
    reg<O<V>, O<>, R<>>("O(V)O()R()");
    reg<O<V>, O<R<V>>>("O(V)O(R(V))");
    reg<O<V>, O<V>, R<>>("O(V)O(V)R()");
    reg<O<V>, R<>>("O(V)R()");
    reg<O<V>, R<>, R<V>>("O(V)R()R(V)");
    reg<O<V>, R<V>, O<V>>("O(V)R(V)O(V)");
    reg<O<V>, R<V, V>>("O(V)R(VV)");
    reg<O<V>, V, R<>>("O(V)VR()");
    reg<O<V, O<V>>>("O(VO(V))");
    reg<O<V, V>>("O(VV)");
    reg<O<V, V>, R<V>>("O(VV)R(V)");
    reg<R<>, A<S<V>, S<>>>("R()A(V|)");
    reg<R<>, O<>>("R()O()");
    reg<R<>, O<>, R<V>>("R()O()R(V)");
    reg<R<>, O<V>>("R()O(V)");
    reg<R<>, O<V>, R<V>>("R()O(V)R(V)");
    reg<R<>, R<>, O<>>("R()R()O()");
    reg<R<>, R<>, V>("R()R()V");
    reg<R<>, R<V>, R<>>("R()R(V)R()");
    reg<R<>, V>("R()V");
    reg<R<>, V, R<V>>("R()VR(V)");
    reg<R<A<S<V>, S<V>>>>("R(A(V|V))");
    reg<R<A<S<>, S<V>>>>("R(A(|V))");
    reg<R<O<V>>>("R(O(V))");
    reg<R<R<>, R<>>>("R(R()R())");
    reg<R<R<V>, R<>>>("R(R(V)R())");
    reg<R<V>, A<S<V>, S<>>>("R(V)A(V|)");
    reg<R<V>, O<>>("R(V)O()");
    reg<R<V>, O<>, R<V>>("R(V)O()R(V)");
    reg<R<V>, O<V>>("R(V)O(V)");
    reg<R<V>, O<V>, R<V>>("R(V)O(V)R(V)");
    reg<R<V>, R<>, O<>>("R(V)R()O()");
    reg<R<V>, R<>, V>("R(V)R()V");
    reg<R<V>, R<V>, R<>>("R(V)R(V)R()");
    reg<R<V>, V>("R(V)V");
    reg<R<V>, V, R<V>>("R(V)VR(V)");
    reg<R<V, O<R<>>>>("R(VO(R()))");
    reg<R<V, R<>>>("R(VR())");
    reg<R<V, V>, O<V>>("R(VV)O(V)");
    reg<R<V, V, V>>("R(VVV)");
    reg<V, A<S<>, S<>>>("VA(|)");
    reg<V, O<>, O<V>>("VO()O(V)");
    reg<V, O<R<>>>("VO(R())");
    reg<V, O<V>, O<V>>("VO(V)O(V)");
    reg<V, O<V, V>>("VO(VV)");
    reg<V, R<>, R<>>("VR()R()");
    reg<V, R<V>, O<>>("VR(V)O()");
    reg<V, R<V>, V>("VR(V)V");
    reg<V, V, O<V>>("VVO(V)");
