    reg<A<S<O<>>, S<>>>("A(O()|)");
    reg<A<S<O<V>>, S<>>>("A(O(V)|)");
    reg<A<S<R<>>, S<>>>("A(R()|)");
    reg<A<S<R<>>, S<R<V>>>>("A(R()|R(V))");
    reg<A<S<R<V>>, S<O<V>>>>("A(R(V)|O(V))");
    reg<A<S<R<V>>, S<V>>>("A(R(V)|V)");
    reg<A<S<V>, S<>>>("A(V|)");
    reg<A<S<V>, S<>>, R<V>>("A(V|)R(V)");
    reg<A<S<V>, S<R<>>>>("A(V|R())");
    reg<A<S<V>, S<V>>, O<V>>("A(V|V)O(V)");
    reg<A<S<V>, S<V, V>>>("A(V|VV)");
    reg<A<S<V>, S<>, S<V>>>("A(V||V)");
    reg<A<S<>, S<>>, R<>>("A(|)R()");
    reg<A<S<>, S<O<V>>>>("A(|O(V))");
    reg<A<S<>, S<V>>, O<>>("A(|V)O()");
    reg<A<S<>, S<V>>, V>("A(|V)V");
    reg<A<S<>, S<>, S<>>>("A(||)");
    reg<O<>, A<S<V>, S<V>>>("O()A(V|V)");
    reg<O<>, O<>>("O()O()");
    reg<O<>, O<>, R<V>>("O()O()R(V)");
    reg<O<>, O<V>>("O()O(V)");
    reg<O<>, O<V>, R<V>>("O()O(V)R(V)");
    reg<O<>, R<>, O<>>("O()R()O()");
    reg<O<>, R<>, V>("O()R()V");
    reg<O<>, R<V>, R<>>("O()R(V)R()");
    reg<O<>, V>("O()V");
    reg<O<>, V, R<V>>("O()VR(V)");
    reg<O<A<S<V>, S<V, V>>>>("O(A(V|VV))");
    reg<O<O<>, R<>>>("O(O()R())");
    reg<O<O<V>, R<>>>("O(O(V)R())");
    reg<O<R<>>, O<>>("O(R())O()");
    reg<O<R<>>, R<>>("O(R())R()");
    reg<O<R<>, O<V>>>("O(R()O(V))");
    reg<O<R<V>>>("O(R(V))");
    reg<O<R<V>>, O<V>>("O(R(V))O(V)");
    reg<O<R<V>, O<>>>("O(R(V)O())");
    reg<O<R<V>, V>>("O(R(V)V)");
    reg<O<V>, A<S<V>, S<V>>>("O(V)A(V|V)");
    reg<O<V>, O<>, O<>>("O(V)O()O()");
    reg<O<V>, O<>, V>("O(V)O()V");
    reg<O<V>, O<V>, O<>>("O(V)O(V)O()");
    reg<O<V>, O<V>, V>("O(V)O(V)V");
    reg<O<V>, R<>, O<V>>("O(V)R()O(V)");
    reg<O<V>, R<V>>("O(V)R(V)");
    reg<O<V>, R<V>, R<V>>("O(V)R(V)R(V)");
    reg<O<V>, V, O<>>("O(V)VO()");
    reg<O<V>, V, V>("O(V)VV");
    reg<O<V, R<>>>("O(VR())");
    reg<O<V, V>, O<V>>("O(VV)O(V)");
    reg<O<V, V, V>>("O(VVV)");
    reg<R<>, A<S<>, S<>>>("R()A(|)");
    reg<R<>, O<>, O<V>>("R()O()O(V)");
    reg<R<>, O<R<>>>("R()O(R())");
    reg<R<>, O<V>, O<V>>("R()O(V)O(V)");
    reg<R<>, O<V, V>>("R()O(VV)");
    reg<R<>, R<>, R<>>("R()R()R()");
    reg<R<>, R<V>, O<>>("R()R(V)O()");
    reg<R<>, R<V>, V>("R()R(V)V");
    reg<R<>, V, O<V>>("R()VO(V)");
    reg<R<A<S<V>, S<>>>>("R(A(V|))");
    reg<R<A<S<>, S<>>>>("R(A(|))");
    reg<R<O<>, V>>("R(O()V)");
    reg<R<O<V>, V, O<V>>>("R(O(V)VO(V))");
    reg<R<R<>, V>>("R(R()V)");
    reg<R<R<V>, V>>("R(R(V)V)");
    reg<R<V>, A<S<>, S<>>>("R(V)A(|)");
    reg<R<V>, O<>, O<V>>("R(V)O()O(V)");
    reg<R<V>, O<R<>>>("R(V)O(R())");
    reg<R<V>, O<V>, O<V>>("R(V)O(V)O(V)");
    reg<R<V>, O<V, V>>("R(V)O(VV)");
    reg<R<V>, R<>, R<>>("R(V)R()R()");
    reg<R<V>, R<V>, O<>>("R(V)R(V)O()");
    reg<R<V>, R<V>, V>("R(V)R(V)V");
    reg<R<V>, V, O<V>>("R(V)VO(V)");
    reg<R<V, A<S<>, S<V>>>>("R(VA(|V))");
    reg<R<V, O<V>>>("R(VO(V))");
    reg<R<V, V>>("R(VV)");
    reg<R<V, V>, R<V>>("R(VV)R(V)");
    reg<V, A<S<V>, S<>>>("VA(V|)");
    reg<V, O<>>("VO()");
    reg<V, O<>, R<V>>("VO()R(V)");
    reg<V, O<V>>("VO(V)");
    reg<V, O<V>, R<V>>("VO(V)R(V)");
    reg<V, R<>, O<>>("VR()O()");
    reg<V, R<>, V>("VR()V");
    reg<V, R<V>, R<>>("VR(V)R()");
    reg<V, V>("VV");
    reg<V, V, R<V>>("VVR(V)");
