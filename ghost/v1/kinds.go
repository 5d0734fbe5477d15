package polyglot

// The tags of the kinds, as every other implementation has them.
//
//verif:harness
//verif:of init
func hKinds() {
	vEnsure("kind/Nil", len(NilKind) == 1 && NilKind[0] == 0)
	vEnsure("kind/Slice", len(SliceKind) == 1 && SliceKind[0] == 1)
	vEnsure("kind/Map", len(MapKind) == 1 && MapKind[0] == 2)
	vEnsure("kind/Any", len(AnyKind) == 1 && AnyKind[0] == 3)
	vEnsure("kind/Bytes", len(BytesKind) == 1 && BytesKind[0] == 4)
	vEnsure("kind/String", len(StringKind) == 1 && StringKind[0] == 5)
	vEnsure("kind/Error", len(ErrorKind) == 1 && ErrorKind[0] == 6)
	vEnsure("kind/Bool", len(BoolKind) == 1 && BoolKind[0] == 7)
	vEnsure("kind/Uint8", len(Uint8Kind) == 1 && Uint8Kind[0] == 8)
	vEnsure("kind/Uint16", len(Uint16Kind) == 1 && Uint16Kind[0] == 9)
	vEnsure("kind/Uint32", len(Uint32Kind) == 1 && Uint32Kind[0] == 10)
	vEnsure("kind/Uint64", len(Uint64Kind) == 1 && Uint64Kind[0] == 11)
	vEnsure("kind/Int32", len(Int32Kind) == 1 && Int32Kind[0] == 12)
	vEnsure("kind/Int64", len(Int64Kind) == 1 && Int64Kind[0] == 13)
	vEnsure("kind/Float32", len(Float32Kind) == 1 && Float32Kind[0] == 14)
	vEnsure("kind/Float64", len(Float64Kind) == 1 && Float64Kind[0] == 15)
	vCover("kinds")
}
