"""TLA+/TLC: Typing.tla gives for every operation requested without a result type and operands of given types the one instruction to be added with its result type; MC_Typing model checks these rules against laws that tie them together (products of matrices, transposition, shapes) and enumerates every operation times every combination of operand types of a universe; each request is carried out by the driver and Trace_Typing checks the instruction added, its operands and its result type, decoded from the declaring instructions"""
from checks import typing

def run(ctx): typing.run(ctx, "emit")
