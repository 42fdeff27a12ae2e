#!/usr/bin/env python3
"""Generates spec/Texts.tla: the message texts of coil as sequences of byte codes
(TLC cannot index the characters of a TLA+ string)."""
import os
T = {
 # lexer
 "tTokenQ": "Token '", "tNoQuote": "' doesn't have a corresponding opening/closing quote",
 "tNoGroup": "' doesn't have a corresponding opening/closing token",
 "tUnexpTok": "Unexpected token '", "tAtBegin": "' at the beginning of the expression",
 "tNoNameArg": "Unexpected token '=': no name for the named argument is provided",
 "tExpValEq": "Expected an argument value, found '='",
 "tExpValEnd": "Expected an argument value, found end of string",
 "tSyntax": "Syntax error: ",
 # execution
 "tNoName": "No function name is specified",
 "tNoFunc": "No function '", "tNotReg": "' is registered",
 "tWrongNum": "Wrong number of arguments to '", "tExpected": "': expected ", "tGot": ", got ",
 "tOr": " or ", "tComma": ", ", "tQuote": "'", "tSpace": " ", "tEmpty": "",
 "tExc": "Exception caught during execution", "tExcColon": "Exception caught during execution: ",
 "tMissing": "Missing named argument '",
 "tRoVar": "This variable is read-only", "tRoProp": "This property is read-only",
 # conversions
 "tUnable": "Unable to convert '", "tToType": "' to type '", "tQuoteColon": "': ",
 "tExpectedSub": "Expected ", "tSubGot": " subvalues, got ",
 "tTrue": "true", "tFalse": "false", "tNull": "null", "tLBr": "[", "tRBr": "]", "tLt": "<", "tGt": ">",
 "tvector": "vector", "toptional": "optional", "tInf": "inf", "tNan": "nan",
 "tBadEnum": "Bad color", "tBadPt": "Bad point",
 # type names
 "nvoid": "void", "nbool": "bool", "nchar": "char", "nschar": "signed char", "nuchar": "unsigned char",
 "nshort": "short", "nushort": "unsigned short", "nint": "int", "nuint": "unsigned int",
 "nlong": "long", "nulong": "unsigned long", "nllong": "long long", "nullong": "unsigned long long",
 "nfloat": "float", "ndouble": "double", "nldouble": "long double", "nstring": "string",
 "nValue": "coil::Value", "ncolor": "Color", "npoint": "Point", "ncstr": "char const*",
 "nint8": "int8", "nuint8": "uint8", "nint16": "int16", "nuint16": "uint16", "nint32": "int32",
 "nuint32": "uint32", "nint64": "int64", "nuint64": "uint64",
}
out = ["---- MODULE Texts ----", "\\* GENERATED by lib/gen_texts.py: message texts as byte codes.", "LOCAL INSTANCE Sequences", ""]
for k, v in T.items():
    out.append("\\* %s" % repr(v))
    out.append("%s == <<%s>>" % (k, ", ".join(str(b) for b in v.encode())))
out.append("====")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Texts.tla")
open(p, "w").write("\n".join(out) + "\n")
