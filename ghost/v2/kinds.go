package polyglot

// The tags of the kinds, as every other implementation has them.
//
//verif:harness
//verif:of init
func hKinds() {
	vEnsure("kind/Nil", NilKind == 0 && NilRawKind == 0)
	vEnsure("kind/Slice", SliceKind == 1 && SliceRawKind == 1)
	vEnsure("kind/Map", MapKind == 2 && MapRawKind == 2)
	vEnsure("kind/Any", AnyKind == 3 && AnyRawKind == 3)
	vEnsure("kind/Bytes", BytesKind == 4 && BytesRawKind == 4)
	vEnsure("kind/String", StringKind == 5 && StringRawKind == 5)
	vEnsure("kind/Error", ErrorKind == 6 && ErrorRawKind == 6)
	vEnsure("kind/Bool", BoolKind == 7 && BoolRawKind == 7)
	vEnsure("kind/Uint8", Uint8Kind == 8 && Uint8RawKind == 8)
	vEnsure("kind/Uint16", Uint16Kind == 9 && Uint16RawKind == 9)
	vEnsure("kind/Uint32", Uint32Kind == 10 && Uint32RawKind == 10)
	vEnsure("kind/Uint64", Uint64Kind == 11 && Uint64RawKind == 11)
	vEnsure("kind/Int32", Int32Kind == 12 && Int32RawKind == 12)
	vEnsure("kind/Int64", Int64Kind == 13 && Int64RawKind == 13)
	vEnsure("kind/Float32", Float32Kind == 14 && Float32RawKind == 14)
	vEnsure("kind/Float64", Float64Kind == 15 && Float64RawKind == 15)
	vCover("kinds")
}
