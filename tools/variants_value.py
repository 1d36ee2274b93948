V = 'src/value.rs'
VARIANTS = [
    ('val-num-zero', 'C08', [(V, 'value != 0.0', 'value > 0.0')]),
    ('val-str-true', 'C08', [(V, 'Value::String(string) => string.len() > 0', 'Value::String(string) => string == "true"')]),
    ('val-arr-skip', 'C08', [(V, 'array.iter().map(', 'array.iter().filter(|v| !v.is_null()).map(')]),
    ('val-null-text', 'C08', [(V, 'Value::Null => "".to_string()', 'Value::Null => self.to_string()')]),
    ('val-string-quotes', 'C08', [(V, 'Value::String(string) => string.clone()', 'Value::String(_) => self.to_string()')]),
    ('val-u64-int', 'C08', [(V, '''match number.as_f64() {
                None => 0,
                Some(number) => number as u64,''', '''match number.as_u64() {
                None => 0,
                Some(number) => number,''')]),
    ('val-obj-bool', 'C08', [(V, 'Value::Object(_) => true', 'Value::Object(map) => !map.is_empty()')]),
    ('r-val-if', None, [(V, '''            Value::Number(number) => number.as_f64().map(|value| value != 0.0).unwrap_or(false),
            Value::String(string) => string.len() > 0,
            Value::Array(array) => array.len() > 0,''', '''            Value::Number(number) => match number.as_f64() { Some(v) => !(v == 0.0), None => false },
            Value::String(string) => !string.is_empty(),
            Value::Array(array) => !array.is_empty(),''')]),
    ('r-val-loop', None, [(V, 'Value::Array(array) => array.iter().map(|value| value.eval_string()).collect(),', '''Value::Array(array) => {
                let mut out = Vec::with_capacity(array.len());
                for value in array {
                    out.push(value.eval_string());
                }
                out
            }''')]),
    ('r-val-u64', None, [(V, '''                if *value {
                    1
                } else {
                    0
                }''', '*value as u64')]),
    ('r-val-matches', None, [(V, '''        match self {
            Value::Null => false,
            Value::Bool(value) => *value,''', '''        if self.is_null() { return false; }
        match self {
            Value::Null => unreachable!(),
            Value::Bool(value) => *value,''')]),
    ('r-val-fmt', None, [(V, 'Value::Bool(value) => value.to_string()', 'Value::Bool(value) => if *value { "true".to_string() } else { String::from("false") }'), (V, 'Value::Number(number) => number.to_string()', 'Value::Number(number) => format!("{number}")')]),
]
