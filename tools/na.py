NA["N01"]="Agreement with another implementation over whole histories is a differential run-time comparison; its analysable content is C02-C08 and C10, which are decided against the wire format itself."
NA["N02"]="Run time depends on the machine and the compiler's code generation; no static argument bounds it. The parts that are visible in the source (no allocation, laziness) are C13 and C21."
NA["N03"]="Nested and imported messages, an empty package and colliding names do not produce valid Go (a known limit of the generator, which is documented as unfinished); valid output is decided for the supported schemas in C15."
NA["N04"]="Accessors return views of the message by design (zero copy), so a later set may change them; the property does not hold and is not promised."
