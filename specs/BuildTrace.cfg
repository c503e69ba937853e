SPECIFICATION TSpec
CONSTANT Props = {"C01", "C02", "C03", "C04", "C17", "C19"}
CHECK_DEADLOCK FALSE
