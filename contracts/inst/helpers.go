package helpers

// Forces the instantiations under verification. Only an in-memory overlay of the front end: never compiled into
// the program.
var zzVerifInst = []any{
	IndexOf[uint64],
	IndexOf[int],
	IndexOf[string],
	BinaryIndexOf[uint64],
	BinaryIndexOf[uint32],
	BinaryIndexOf[int],
	BinaryIndexOf[int64],
	BinaryIndexOf[string],
	Deviation[uint64],
	Deviation[uint32],
	Deviation[uint8],
	BinaryIndexOfClosest[uint64],
	BinaryIndexOfClosest[uint32],
	BinaryIndexOfClosest[uint8],
	Remove[uint64],
	Remove[string],
	RemoveSavingOrder[uint64],
	RemoveSavingOrder[string],
	Insert[uint64],
	Insert[uint8],
	Insert[int],
	InsertSavingOrder[uint64],
	InsertSavingOrder[uint32],
	InsertSavingOrder[uint8],
	PutSavingOrder[uint64],
	PutSavingOrder[uint32],
	PutSavingOrder[uint8],
}
