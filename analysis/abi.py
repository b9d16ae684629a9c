"""Layout of the values that the library hands out: the #[repr(C)] types of snips-nlu-ontology-ffi-macros and ffi-utils at the versions /repo pins.
Their source is not in this sandbox; this is the record of it that was published with those versions (the generated header)."""

PINNED = ("snips-nlu-ontology-ffi-macros", "0.67.1")

STRUCTS = {
    "CIntentClassifierResult": (("intent_name", "char*"), ("confidence_score", "float")),
    "CIntentClassifierResultArray": (("intent_classifier_results", "CIntentClassifierResult*"), ("size", "int")),
    "CSlotValue": (("value", "void*"), ("value_type", "SNIPS_SLOT_VALUE_TYPE")),
    "CSlotValueArray": (("slot_values", "CSlotValue*"), ("size", "int")),
    "CSlot": (("value", "CSlotValue*"), ("alternatives", "CSlotValueArray*"), ("raw_value", "char*"), ("entity", "char*"), ("slot_name", "char*"), ("range_start", "int"), ("range_end", "int"), ("confidence_score", "float")),
    "CSlotList": (("slots", "CSlot*"), ("size", "int")),
    "CIntentParserAlternative": (("intent", "CIntentClassifierResult*"), ("slots", "CSlotList*")),
    "CIntentParserAlternativeArray": (("intent_parser_alternatives", "CIntentParserAlternative*"), ("size", "int")),
    "CIntentParserResult": (("input", "char*"), ("intent", "CIntentClassifierResult*"), ("slots", "CSlotList*"), ("alternatives", "CIntentParserAlternativeArray*")),
    "CStringArray": (("data", "char**"), ("size", "int")),
    "CInstantTimeValue": (("value", "char*"), ("grain", "SNIPS_GRAIN"), ("precision", "SNIPS_PRECISION")),
    "CTimeIntervalValue": (("from", "char*"), ("to", "char*")),
    "CAmountOfMoneyValue": (("unit", "char*"), ("value", "float"), ("precision", "SNIPS_PRECISION")),
    "CTemperatureValue": (("unit", "char*"), ("value", "float")),
    "CDurationValue": (("years", "int64_t"), ("quarters", "int64_t"), ("months", "int64_t"), ("weeks", "int64_t"), ("days", "int64_t"), ("hours", "int64_t"), ("minutes", "int64_t"), ("seconds", "int64_t"), ("precision", "SNIPS_PRECISION")),
}

CODES = {
    "SNIPS_GRAIN_YEAR": 0,
    "SNIPS_GRAIN_QUARTER": 1,
    "SNIPS_GRAIN_MONTH": 2,
    "SNIPS_GRAIN_WEEK": 3,
    "SNIPS_GRAIN_DAY": 4,
    "SNIPS_GRAIN_HOUR": 5,
    "SNIPS_GRAIN_MINUTE": 6,
    "SNIPS_GRAIN_SECOND": 7,
    "SNIPS_PRECISION_APPROXIMATE": 0,
    "SNIPS_PRECISION_EXACT": 1,
    "SNIPS_RESULT_OK": 0,
    "SNIPS_RESULT_KO": 1,
    "SNIPS_SLOT_VALUE_TYPE_CUSTOM": 1,
    "SNIPS_SLOT_VALUE_TYPE_NUMBER": 2,
    "SNIPS_SLOT_VALUE_TYPE_ORDINAL": 3,
    "SNIPS_SLOT_VALUE_TYPE_INSTANTTIME": 4,
    "SNIPS_SLOT_VALUE_TYPE_TIMEINTERVAL": 5,
    "SNIPS_SLOT_VALUE_TYPE_AMOUNTOFMONEY": 6,
    "SNIPS_SLOT_VALUE_TYPE_TEMPERATURE": 7,
    "SNIPS_SLOT_VALUE_TYPE_DURATION": 8,
    "SNIPS_SLOT_VALUE_TYPE_PERCENTAGE": 9,
    "SNIPS_SLOT_VALUE_TYPE_MUSICALBUM": 10,
    "SNIPS_SLOT_VALUE_TYPE_MUSICARTIST": 11,
    "SNIPS_SLOT_VALUE_TYPE_MUSICTRACK": 12,
    "SNIPS_SLOT_VALUE_TYPE_CITY": 13,
    "SNIPS_SLOT_VALUE_TYPE_COUNTRY": 14,
    "SNIPS_SLOT_VALUE_TYPE_REGION": 15,
}

NAMES = {
    "CNumberValue": "double",
    "COrdinalValue": "int64_t",
    "CPercentageValue": "double",
}
