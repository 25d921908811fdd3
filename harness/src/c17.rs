use crate::rt::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::*;

fn code<T>(get: fn(&T) -> i32, wr: fn(&T, &mut Vec<u8>) -> bool, awr: fn(&T, &mut Vec<u8>) -> bool)
where
    T: From<i32> + for<'a> From<&'a i32> + Copy + PartialEq + Ord + ReadThrift + AsyncReadThrift,
    i32: From<T> + for<'a> From<&'a T>,
{
    let c = int(32) as i32;
    reach(1);
    let e = T::from(c);
    check!(get(&e) == c, "converting a code to an enum changes it");
    check!(i32::from(e) == c && i32::from(&e) == c, "converting an enum to its code changes it");
    check!(T::from(&c) == e, "converting a reference to a code gives something else");
    let d = int(32) as i32;
    let f = T::from(d);
    check!((e == f) == (c == d), "enum values compare otherwise than their codes");
    for w in [wr, awr] {
        let mut b = vec![];
        check!(w(&e, &mut b), "writing an enum fails");
        obs_bytes(1, &b);
        let mut s: &[u8] = &b;
        let r = T::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut s, usize::MAX));
        check!(matches!(r, Ok(x) if get(&x) == c) && s.is_empty(), "an enum is read as something else");
        let mut s: &[u8] = &b;
        let r = block_on(T::stream_from_in_protocol(&mut TCompactInputStreamProtocol::new(&mut s, usize::MAX)));
        check!(matches!(r, Ok(x) if get(&x) == c) && s.is_empty(), "an enum is read as something else asynchronously");
    }
}
fn named<T: PartialEq + From<i32> + 'static>(all: &[T], names: &[(T, i32)], get: fn(&T) -> i32) {
    reach(1);
    check!(all.len() == names.len(), "the list of named values has another length");
    for (i, (n, c)) in names.iter().enumerate() {
        check!(get(n) == *c, "a named constant has another code than in parquet.thrift");
        check!(T::from(*c) == *n, "a code is converted to another named constant");
        check!(i < all.len() && all[i] == *n, "the list of named values differs from parquet.thrift");
    }
}
macro_rules! enums {
    ($($i:literal $t:ident { $($n:ident = $c:literal)* })*) => {
        fn run(c: u64) {
            $(
                if c == $i {
                    return code::<$t>(
                        |x| x.0,
                        |x, b| x.write_to_out_protocol(&mut TCompactOutputProtocol::new(b)).is_ok(),
                        |x, b| block_on(x.write_to_out_stream_protocol(&mut TCompactOutputStreamProtocol::new(b))).is_ok(),
                    );
                }
                if c == $i + 16 {
                    return named::<$t>($t::ENUM_VALUES, &[$(($t::$n, $c)),*], |x| x.0);
                }
            )*
        }
        fn cases(_: u64) -> Vec<u64> {
            vec![$($i, $i + 16),*]
        }
    };
}
enums! {
    0 Type { BOOLEAN = 0 INT32 = 1 INT64 = 2 INT96 = 3 FLOAT = 4 DOUBLE = 5 BYTE_ARRAY = 6 FIXED_LEN_BYTE_ARRAY = 7 }
    1 ConvertedType { UTF8 = 0 MAP = 1 MAP_KEY_VALUE = 2 LIST = 3 ENUM = 4 DECIMAL = 5 DATE = 6 TIME_MILLIS = 7
        TIME_MICROS = 8 TIMESTAMP_MILLIS = 9 TIMESTAMP_MICROS = 10 UINT_8 = 11 UINT_16 = 12 UINT_32 = 13 UINT_64 = 14
        INT_8 = 15 INT_16 = 16 INT_32 = 17 INT_64 = 18 JSON = 19 BSON = 20 INTERVAL = 21 }
    2 FieldRepetitionType { REQUIRED = 0 OPTIONAL = 1 REPEATED = 2 }
    3 Encoding { PLAIN = 0 PLAIN_DICTIONARY = 2 RLE = 3 BIT_PACKED = 4 DELTA_BINARY_PACKED = 5
        DELTA_LENGTH_BYTE_ARRAY = 6 DELTA_BYTE_ARRAY = 7 RLE_DICTIONARY = 8 BYTE_STREAM_SPLIT = 9 }
    4 CompressionCodec { UNCOMPRESSED = 0 SNAPPY = 1 GZIP = 2 LZO = 3 BROTLI = 4 LZ4 = 5 ZSTD = 6 LZ4_RAW = 7 }
    5 PageType { DATA_PAGE = 0 INDEX_PAGE = 1 DICTIONARY_PAGE = 2 DATA_PAGE_V2 = 3 }
    6 BoundaryOrder { UNORDERED = 0 ASCENDING = 1 DESCENDING = 2 }
}
harnesses! {
    "c17_codes" h_c17_codes n_c17_codes : cases => run;
}
