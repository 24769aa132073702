SPECIFICATION ISpec
CHECK_DEADLOCK FALSE
INVARIANTS Sizes ZeroIsInvalid OnlyZeroAssignedInvalid Bijective UpgradeKeepsMeaning OperandsLegal DescriptionShape DescriptionsDistinct Widths Privileges PriceRule StaticFacts NopAndPanicExist
