SPECIFICATION Spec
INVARIANTS SameAsSequential EachRowOnce NeverTwice Exclusive AbortObeyed AbortAtomic NoneLeft NothingUnwrittenRead
PROPERTY Ends
CHECK_DEADLOCK FALSE
