//! Token sequences to text, with controlled trivia between tokens.
use crate::lex::lex;
use crate::pool::Pool;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    /// no trivia except where two tokens would run together
    Minimal,
    /// one space between tokens
    Spaced,
    /// random whitespace and comments in random gaps
    Random,
    /// random trivia in every gap
    Dense,
}

pub fn runs_together(a: &str, b: &str) -> bool {
    let s = format!("{}{}", a, b);
    let l = lex(&s);
    !(l.len() == 2 && l[0].text == a && l[1].text == b)
}

pub fn render<S: AsRef<str>>(toks: &[S], style: Style, rng: &mut Rng, pool: &Pool) -> String {
    let mut s = String::new();
    let n = toks.len();
    for (i, t) in toks.iter().enumerate() {
        let t = t.as_ref();
        if i == 0 {
            if style == Style::Dense || (style == Style::Random && rng.chance(1, 3)) {
                s.push_str(&pool.trivia(rng, false));
            }
        } else {
            let need = runs_together(toks[i - 1].as_ref(), t);
            match style {
                Style::Minimal => {
                    if need {
                        s.push(' ')
                    }
                }
                Style::Spaced => s.push(' '),
                Style::Random => {
                    if rng.chance(1, 3) {
                        s.push_str(&pool.trivia(rng, false));
                    } else if need {
                        s.push_str(rng.pick(&[" ", "\n", "\t", "\r", "/**/", "//\n"]));
                    }
                }
                Style::Dense => s.push_str(&pool.trivia(rng, false)),
            }
        }
        s.push_str(t);
    }
    if n > 0 && (style == Style::Dense || (style == Style::Random && rng.chance(1, 2))) {
        s.push_str(&pool.trivia(rng, true));
    }
    s
}

/// Renders and makes sure the text lexes back to exactly these tokens; falls back to one space between tokens.
/// `None` when the tokens cannot be written apart (junk in the sequence).
pub fn render_checked<S: AsRef<str>>(toks: &[S], style: Style, rng: &mut Rng, pool: &Pool) -> Option<String> {
    for st in [style, Style::Spaced] {
        let s = render(toks, st, rng, pool);
        let l = lex(&s);
        if l.len() == toks.len() && l.iter().zip(toks).all(|(a, b)| a.text == b.as_ref()) {
            return Some(s);
        }
    }
    None
}
