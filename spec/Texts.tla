---- MODULE Texts ----
\* GENERATED by lib/gen_texts.py: message texts as byte codes.
LOCAL INSTANCE Sequences

\* "Token '"
tTokenQ == <<84, 111, 107, 101, 110, 32, 39>>
\* "' doesn't have a corresponding opening/closing quote"
tNoQuote == <<39, 32, 100, 111, 101, 115, 110, 39, 116, 32, 104, 97, 118, 101, 32, 97, 32, 99, 111, 114, 114, 101, 115, 112, 111, 110, 100, 105, 110, 103, 32, 111, 112, 101, 110, 105, 110, 103, 47, 99, 108, 111, 115, 105, 110, 103, 32, 113, 117, 111, 116, 101>>
\* "' doesn't have a corresponding opening/closing token"
tNoGroup == <<39, 32, 100, 111, 101, 115, 110, 39, 116, 32, 104, 97, 118, 101, 32, 97, 32, 99, 111, 114, 114, 101, 115, 112, 111, 110, 100, 105, 110, 103, 32, 111, 112, 101, 110, 105, 110, 103, 47, 99, 108, 111, 115, 105, 110, 103, 32, 116, 111, 107, 101, 110>>
\* "Unexpected token '"
tUnexpTok == <<85, 110, 101, 120, 112, 101, 99, 116, 101, 100, 32, 116, 111, 107, 101, 110, 32, 39>>
\* "' at the beginning of the expression"
tAtBegin == <<39, 32, 97, 116, 32, 116, 104, 101, 32, 98, 101, 103, 105, 110, 110, 105, 110, 103, 32, 111, 102, 32, 116, 104, 101, 32, 101, 120, 112, 114, 101, 115, 115, 105, 111, 110>>
\* "Unexpected token '=': no name for the named argument is provided"
tNoNameArg == <<85, 110, 101, 120, 112, 101, 99, 116, 101, 100, 32, 116, 111, 107, 101, 110, 32, 39, 61, 39, 58, 32, 110, 111, 32, 110, 97, 109, 101, 32, 102, 111, 114, 32, 116, 104, 101, 32, 110, 97, 109, 101, 100, 32, 97, 114, 103, 117, 109, 101, 110, 116, 32, 105, 115, 32, 112, 114, 111, 118, 105, 100, 101, 100>>
\* "Expected an argument value, found '='"
tExpValEq == <<69, 120, 112, 101, 99, 116, 101, 100, 32, 97, 110, 32, 97, 114, 103, 117, 109, 101, 110, 116, 32, 118, 97, 108, 117, 101, 44, 32, 102, 111, 117, 110, 100, 32, 39, 61, 39>>
\* 'Expected an argument value, found end of string'
tExpValEnd == <<69, 120, 112, 101, 99, 116, 101, 100, 32, 97, 110, 32, 97, 114, 103, 117, 109, 101, 110, 116, 32, 118, 97, 108, 117, 101, 44, 32, 102, 111, 117, 110, 100, 32, 101, 110, 100, 32, 111, 102, 32, 115, 116, 114, 105, 110, 103>>
\* 'Syntax error: '
tSyntax == <<83, 121, 110, 116, 97, 120, 32, 101, 114, 114, 111, 114, 58, 32>>
\* 'No function name is specified'
tNoName == <<78, 111, 32, 102, 117, 110, 99, 116, 105, 111, 110, 32, 110, 97, 109, 101, 32, 105, 115, 32, 115, 112, 101, 99, 105, 102, 105, 101, 100>>
\* "No function '"
tNoFunc == <<78, 111, 32, 102, 117, 110, 99, 116, 105, 111, 110, 32, 39>>
\* "' is registered"
tNotReg == <<39, 32, 105, 115, 32, 114, 101, 103, 105, 115, 116, 101, 114, 101, 100>>
\* "Wrong number of arguments to '"
tWrongNum == <<87, 114, 111, 110, 103, 32, 110, 117, 109, 98, 101, 114, 32, 111, 102, 32, 97, 114, 103, 117, 109, 101, 110, 116, 115, 32, 116, 111, 32, 39>>
\* "': expected "
tExpected == <<39, 58, 32, 101, 120, 112, 101, 99, 116, 101, 100, 32>>
\* ', got '
tGot == <<44, 32, 103, 111, 116, 32>>
\* ' or '
tOr == <<32, 111, 114, 32>>
\* ', '
tComma == <<44, 32>>
\* "'"
tQuote == <<39>>
\* ' '
tSpace == <<32>>
\* ''
tEmpty == <<>>
\* 'Exception caught during execution'
tExc == <<69, 120, 99, 101, 112, 116, 105, 111, 110, 32, 99, 97, 117, 103, 104, 116, 32, 100, 117, 114, 105, 110, 103, 32, 101, 120, 101, 99, 117, 116, 105, 111, 110>>
\* 'Exception caught during execution: '
tExcColon == <<69, 120, 99, 101, 112, 116, 105, 111, 110, 32, 99, 97, 117, 103, 104, 116, 32, 100, 117, 114, 105, 110, 103, 32, 101, 120, 101, 99, 117, 116, 105, 111, 110, 58, 32>>
\* "Missing named argument '"
tMissing == <<77, 105, 115, 115, 105, 110, 103, 32, 110, 97, 109, 101, 100, 32, 97, 114, 103, 117, 109, 101, 110, 116, 32, 39>>
\* 'This variable is read-only'
tRoVar == <<84, 104, 105, 115, 32, 118, 97, 114, 105, 97, 98, 108, 101, 32, 105, 115, 32, 114, 101, 97, 100, 45, 111, 110, 108, 121>>
\* 'This property is read-only'
tRoProp == <<84, 104, 105, 115, 32, 112, 114, 111, 112, 101, 114, 116, 121, 32, 105, 115, 32, 114, 101, 97, 100, 45, 111, 110, 108, 121>>
\* "Unable to convert '"
tUnable == <<85, 110, 97, 98, 108, 101, 32, 116, 111, 32, 99, 111, 110, 118, 101, 114, 116, 32, 39>>
\* "' to type '"
tToType == <<39, 32, 116, 111, 32, 116, 121, 112, 101, 32, 39>>
\* "': "
tQuoteColon == <<39, 58, 32>>
\* 'Expected '
tExpectedSub == <<69, 120, 112, 101, 99, 116, 101, 100, 32>>
\* ' subvalues, got '
tSubGot == <<32, 115, 117, 98, 118, 97, 108, 117, 101, 115, 44, 32, 103, 111, 116, 32>>
\* 'true'
tTrue == <<116, 114, 117, 101>>
\* 'false'
tFalse == <<102, 97, 108, 115, 101>>
\* 'null'
tNull == <<110, 117, 108, 108>>
\* '['
tLBr == <<91>>
\* ']'
tRBr == <<93>>
\* '<'
tLt == <<60>>
\* '>'
tGt == <<62>>
\* 'vector'
tvector == <<118, 101, 99, 116, 111, 114>>
\* 'optional'
toptional == <<111, 112, 116, 105, 111, 110, 97, 108>>
\* 'inf'
tInf == <<105, 110, 102>>
\* 'nan'
tNan == <<110, 97, 110>>
\* 'Bad color'
tBadEnum == <<66, 97, 100, 32, 99, 111, 108, 111, 114>>
\* 'Bad point'
tBadPt == <<66, 97, 100, 32, 112, 111, 105, 110, 116>>
\* 'void'
nvoid == <<118, 111, 105, 100>>
\* 'bool'
nbool == <<98, 111, 111, 108>>
\* 'char'
nchar == <<99, 104, 97, 114>>
\* 'signed char'
nschar == <<115, 105, 103, 110, 101, 100, 32, 99, 104, 97, 114>>
\* 'unsigned char'
nuchar == <<117, 110, 115, 105, 103, 110, 101, 100, 32, 99, 104, 97, 114>>
\* 'short'
nshort == <<115, 104, 111, 114, 116>>
\* 'unsigned short'
nushort == <<117, 110, 115, 105, 103, 110, 101, 100, 32, 115, 104, 111, 114, 116>>
\* 'int'
nint == <<105, 110, 116>>
\* 'unsigned int'
nuint == <<117, 110, 115, 105, 103, 110, 101, 100, 32, 105, 110, 116>>
\* 'long'
nlong == <<108, 111, 110, 103>>
\* 'unsigned long'
nulong == <<117, 110, 115, 105, 103, 110, 101, 100, 32, 108, 111, 110, 103>>
\* 'long long'
nllong == <<108, 111, 110, 103, 32, 108, 111, 110, 103>>
\* 'unsigned long long'
nullong == <<117, 110, 115, 105, 103, 110, 101, 100, 32, 108, 111, 110, 103, 32, 108, 111, 110, 103>>
\* 'float'
nfloat == <<102, 108, 111, 97, 116>>
\* 'double'
ndouble == <<100, 111, 117, 98, 108, 101>>
\* 'long double'
nldouble == <<108, 111, 110, 103, 32, 100, 111, 117, 98, 108, 101>>
\* 'string'
nstring == <<115, 116, 114, 105, 110, 103>>
\* 'coil::Value'
nValue == <<99, 111, 105, 108, 58, 58, 86, 97, 108, 117, 101>>
\* 'Color'
ncolor == <<67, 111, 108, 111, 114>>
\* 'Point'
npoint == <<80, 111, 105, 110, 116>>
\* 'char const*'
ncstr == <<99, 104, 97, 114, 32, 99, 111, 110, 115, 116, 42>>
\* 'int8'
nint8 == <<105, 110, 116, 56>>
\* 'uint8'
nuint8 == <<117, 105, 110, 116, 56>>
\* 'int16'
nint16 == <<105, 110, 116, 49, 54>>
\* 'uint16'
nuint16 == <<117, 105, 110, 116, 49, 54>>
\* 'int32'
nint32 == <<105, 110, 116, 51, 50>>
\* 'uint32'
nuint32 == <<117, 105, 110, 116, 51, 50>>
\* 'int64'
nint64 == <<105, 110, 116, 54, 52>>
\* 'uint64'
nuint64 == <<117, 105, 110, 116, 54, 52>>
====
