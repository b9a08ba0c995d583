    reg<A<S<O<>>, S<R<>>>>("A(O()|R())");
    reg<A<S<O<V>>, S<R<>>>>("A(O(V)|R())");
    reg<A<S<R<>>, S<O<>>>>("A(R()|O())");
    reg<A<S<R<>>, S<V>>>("A(R()|V)");
    reg<A<S<R<V>>, S<O<V>, V>>>("A(R(V)|O(V)V)");
    reg<A<S<V, R<V>>, S<O<V>, V>>>("A(VR(V)|O(V)V)");
    reg<A<S<V>, S<>>, O<>>("A(V|)O()");
    reg<A<S<V>, S<>>, V>("A(V|)V");
    reg<A<S<V>, S<R<V>>>>("A(V|R(V))");
    reg<A<S<V>, S<V>>, R<>>("A(V|V)R()");
    reg<A<S<V>, S<V>, S<>>>("A(V|V|)");
    reg<A<S<>, S<>>>("A(|)");
    reg<A<S<>, S<>>, R<V>>("A(|)R(V)");
    reg<A<S<>, S<R<>>>>("A(|R())");
    reg<A<S<>, S<V>>, O<V>>("A(|V)O(V)");
    reg<A<S<>, S<V, V>>>("A(|VV)");
    reg<A<S<>, S<>, S<V>>>("A(||V)");
    reg<O<>, A<S<>, S<>>>("O()A(|)");
    reg<O<>, O<>, O<>>("O()O()O()");
    reg<O<>, O<>, V>("O()O()V");
    reg<O<>, O<V>, O<>>("O()O(V)O()");
    reg<O<>, O<V>, V>("O()O(V)V");
    reg<O<>, R<>, O<V>>("O()R()O(V)");
    reg<O<>, R<V>>("O()R(V)");
    reg<O<>, R<V>, R<V>>("O()R(V)R(V)");
    reg<O<>, V, O<>>("O()VO()");
    reg<O<>, V, V>("O()VV");
    reg<O<A<S<>, S<>>>>("O(A(|))");
    reg<O<O<>, R<V>>>("O(O()R(V))");
    reg<O<O<V>, R<V>>>("O(O(V)R(V))");
    reg<O<R<>>, O<R<>>>("O(R())O(R())");
    reg<O<R<>>, R<V>>("O(R())R(V)");
    reg<O<R<>, R<>>>("O(R()R())");
    reg<O<R<V>>, O<>>("O(R(V))O()");
    reg<O<R<V>>, R<>>("O(R(V))R()");
    reg<O<R<V>, O<V>>>("O(R(V)O(V))");
    reg<O<R<V, V>>>("O(R(VV))");
    reg<O<V>, A<S<>, S<>>>("O(V)A(|)");
    reg<O<V>, O<>, O<V>>("O(V)O()O(V)");
    reg<O<V>, O<R<>>>("O(V)O(R())");
    reg<O<V>, O<V>, O<V>>("O(V)O(V)O(V)");
    reg<O<V>, O<V, V>>("O(V)O(VV)");
    reg<O<V>, R<>, R<>>("O(V)R()R()");
    reg<O<V>, R<V>, O<>>("O(V)R(V)O()");
    reg<O<V>, R<V>, V>("O(V)R(V)V");
    reg<O<V>, V, O<V>>("O(V)VO(V)");
    reg<O<V, O<>>>("O(VO())");
    reg<O<V, R<V>>>("O(VR(V))");
    reg<O<V, V>, R<>>("O(VV)R()");
    reg<R<>>("R()");
    reg<R<>, A<S<>, S<V>>>("R()A(|V)");
    reg<R<>, O<>, R<>>("R()O()R()");
    reg<R<>, O<R<V>>>("R()O(R(V))");
    reg<R<>, O<V>, R<>>("R()O(V)R()");
    reg<R<>, R<>>("R()R()");
    reg<R<>, R<>, R<V>>("R()R()R(V)");
    reg<R<>, R<V>, O<V>>("R()R(V)O(V)");
    reg<R<>, R<V, V>>("R()R(VV)");
    reg<R<>, V, R<>>("R()VR()");
    reg<R<A<S<V>, S<>>, V>>("R(A(V|)V)");
    reg<R<A<S<>, S<>>, V>>("R(A(|)V)");
    reg<R<O<>, V, O<>>>("R(O()VO())");
    reg<R<R<>>>("R(R())");
    reg<R<R<V>>>("R(R(V))");
    reg<R<V>>("R(V)");
    reg<R<V>, A<S<>, S<V>>>("R(V)A(|V)");
    reg<R<V>, O<>, R<>>("R(V)O()R()");
    reg<R<V>, O<R<V>>>("R(V)O(R(V))");
    reg<R<V>, O<V>, R<>>("R(V)O(V)R()");
    reg<R<V>, R<>>("R(V)R()");
    reg<R<V>, R<>, R<V>>("R(V)R()R(V)");
    reg<R<V>, R<V>, O<V>>("R(V)R(V)O(V)");
    reg<R<V>, R<V, V>>("R(V)R(VV)");
    reg<R<V>, V, R<>>("R(V)VR()");
    reg<R<V, O<>>>("R(VO())");
    reg<R<V, O<V, V>>>("R(VO(VV))");
    reg<R<V, V>, O<>>("R(VV)O()");
    reg<R<V, V>, V>("R(VV)V");
    reg<V, A<S<V>, S<V>>>("VA(V|V)");
    reg<V, O<>, O<>>("VO()O()");
    reg<V, O<>, V>("VO()V");
    reg<V, O<V>, O<>>("VO(V)O()");
    reg<V, O<V>, V>("VO(V)V");
    reg<V, R<>, O<V>>("VR()O(V)");
    reg<V, R<V>>("VR(V)");
    reg<V, R<V>, R<V>>("VR(V)R(V)");
    reg<V, V, O<>>("VVO()");
    reg<V, V, V>("VVV");
