    reg<A<S<A<S<V>, S<>>, V>, S<V>>>("A(A(V|)V|V)");
    reg<A<S<O<>>, S<V>>>("A(O()|V)");
    reg<A<S<O<V>>, S<V>>>("A(O(V)|V)");
    reg<A<S<R<>>, S<R<>>>>("A(R()|R())");
    reg<A<S<R<V>>, S<O<>>>>("A(R(V)|O())");
    reg<A<S<R<V>>, S<R<V>>>>("A(R(V)|R(V))");
    reg<A<S<V, V>, S<V>>>("A(VV|V)");
    reg<A<S<V>, S<>>, R<>>("A(V|)R()");
    reg<A<S<V>, S<O<V>>>>("A(V|O(V))");
    reg<A<S<V>, S<V>>, O<>>("A(V|V)O()");
    reg<A<S<V>, S<V>>, V>("A(V|V)V");
    reg<A<S<V>, S<>, S<>>>("A(V||)");
    reg<A<S<>, S<>>, O<V>>("A(|)O(V)");
    reg<A<S<>, S<O<>>>>("A(|O())");
    reg<A<S<>, S<V>>>("A(|V)");
    reg<A<S<>, S<V>>, R<V>>("A(|V)R(V)");
    reg<A<S<>, S<V>, S<V>>>("A(|V|V)");
    reg<O<>, A<S<V>, S<>>>("O()A(V|)");
    reg<O<>, A<S<>, S<V>>>("O()A(|V)");
    reg<O<>, O<>, R<>>("O()O()R()");
    reg<O<>, O<R<V>>>("O()O(R(V))");
    reg<O<>, O<V>, R<>>("O()O(V)R()");
    reg<O<>, R<>>("O()R()");
    reg<O<>, R<>, R<V>>("O()R()R(V)");
    reg<O<>, R<V>, O<V>>("O()R(V)O(V)");
    reg<O<>, R<V, V>>("O()R(VV)");
    reg<O<>, V, R<>>("O()VR()");
    reg<O<A<S<V>, S<V>>>>("O(A(V|V))");
    reg<O<O<>>>("O(O())");
    reg<O<O<V>>>("O(O(V))");
    reg<O<R<>>>("O(R())");
    reg<O<R<>>, O<V>>("O(R())O(V)");
    reg<O<R<>, O<>>>("O(R()O())");
    reg<O<R<>, V>>("O(R()V)");
    reg<O<R<V>>, O<R<V>>>("O(R(V))O(R(V))");
    reg<O<R<V>>, V>("O(R(V))V");
    reg<O<R<V>, R<V>>>("O(R(V)R(V))");
    reg<O<V>, A<S<V>, S<>>>("O(V)A(V|)");
    reg<O<V>, O<>>("O(V)O()");
    reg<O<V>, O<>, R<V>>("O(V)O()R(V)");
    reg<O<V>, O<V>>("O(V)O(V)");
    reg<O<V>, O<V>, R<V>>("O(V)O(V)R(V)");
    reg<O<V>, R<>, O<>>("O(V)R()O()");
    reg<O<V>, R<>, V>("O(V)R()V");
    reg<O<V>, R<V>, R<>>("O(V)R(V)R()");
    reg<O<V>, V>("O(V)V");
    reg<O<V>, V, R<V>>("O(V)VR(V)");
    reg<O<V, O<V, O<V>>>>("O(VO(VO(V)))");
    reg<O<V, V>, O<>>("O(VV)O()");
    reg<O<V, V>, V>("O(VV)V");
    reg<R<>, A<S<V>, S<V>>>("R()A(V|V)");
    reg<R<>, O<>, O<>>("R()O()O()");
    reg<R<>, O<>, V>("R()O()V");
    reg<R<>, O<V>, O<>>("R()O(V)O()");
    reg<R<>, O<V>, V>("R()O(V)V");
    reg<R<>, R<>, O<V>>("R()R()O(V)");
    reg<R<>, R<V>>("R()R(V)");
    reg<R<>, R<V>, R<V>>("R()R(V)R(V)");
    reg<R<>, V, O<>>("R()VO()");
    reg<R<>, V, V>("R()VV");
    reg<R<A<S<V>, S<V, V>>>>("R(A(V|VV))");
    reg<R<O<>>>("R(O())");
    reg<R<O<V>, V>>("R(O(V)V)");
    reg<R<R<>, R<V>>>("R(R()R(V))");
    reg<R<R<V>, R<V>>>("R(R(V)R(V))");
    reg<R<V>, A<S<V>, S<V>>>("R(V)A(V|V)");
    reg<R<V>, O<>, O<>>("R(V)O()O()");
    reg<R<V>, O<>, V>("R(V)O()V");
    reg<R<V>, O<V>, O<>>("R(V)O(V)O()");
    reg<R<V>, O<V>, V>("R(V)O(V)V");
    reg<R<V>, R<>, O<V>>("R(V)R()O(V)");
    reg<R<V>, R<V>>("R(V)R(V)");
    reg<R<V>, R<V>, R<V>>("R(V)R(V)R(V)");
    reg<R<V>, V, O<>>("R(V)VO()");
    reg<R<V>, V, V>("R(V)VV");
    reg<R<V, O<R<V>>>>("R(VO(R(V)))");
    reg<R<V, R<V>>>("R(VR(V))");
    reg<R<V, V>, R<>>("R(VV)R()");
    reg<V>("V");
    reg<V, A<S<>, S<V>>>("VA(|V)");
    reg<V, O<>, R<>>("VO()R()");
    reg<V, O<R<V>>>("VO(R(V))");
    reg<V, O<V>, R<>>("VO(V)R()");
    reg<V, R<>>("VR()");
    reg<V, R<>, R<V>>("VR()R(V)");
    reg<V, R<V>, O<V>>("VR(V)O(V)");
    reg<V, R<V, V>>("VR(VV)");
    reg<V, V, R<>>("VVR()");
