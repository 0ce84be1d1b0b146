use num::BigInt;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum WolframValue {
    Skip,
    Boolean(bool),
    String(Box<str>),
    Symbol(Box<str>),
    BigInteger(BigInt),
    BigDecimal(Box<str>),
    Function(Box<WolframValue>, Vec<WolframValue>),
}
pub trait ToWolfram {
    fn to_wolfram(&self) -> WolframValue;
    fn to_wolfram_string(&self) -> String {
        self.to_wolfram().to_string()
    }
    fn to_wolfram_bytes(&self) -> Vec<u8> {
        self.to_wolfram_string().into_bytes()
    }
}
impl ToWolfram for WolframValue {
    fn to_wolfram(&self) -> WolframValue {
        self.clone()
    }
}
impl WolframValue {
    pub fn symbol<S: AsRef<str>>(s: S) -> WolframValue {
        WolframValue::Symbol(Box::from(s.as_ref()))
    }
    pub fn function<S: AsRef<str>, T: ToWolfram>(s: S, args: Vec<T>) -> WolframValue {
        WolframValue::Function(Box::new(WolframValue::symbol(s)), args.iter().map(|a| a.to_wolfram()).collect())
    }
    pub fn to_string(&self) -> String {
        match self {
            WolframValue::Skip => String::new(),
            WolframValue::Boolean(b) => (if *b { "True" } else { "False" }).to_string(),
            WolframValue::String(s) => format!("{:?}", s),
            WolframValue::Symbol(s) => s.to_string(),
            WolframValue::BigInteger(i) => i.to_string(),
            WolframValue::BigDecimal(s) => s.to_string(),
            WolframValue::Function(h, a) => {
                let a: Vec<String> = a.iter().map(|x| x.to_string()).collect();
                if let WolframValue::Symbol(s) = h.as_ref() {
                    if s.as_ref() == "List" {
                        return format!("{{{}}}", a.join(","));
                    }
                }
                format!("{}[{}]", h.to_string(), a.join(","))
            }
        }
    }
}
