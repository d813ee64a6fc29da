package javax.xml.bind.annotation;

import java.lang.annotation.*;

/** Stands in for JAXB's, with its targets and the elements that generated code uses. */
@Retention(RetentionPolicy.RUNTIME)
@Target({ElementType.PACKAGE, ElementType.TYPE})
public @interface XmlAccessorType {
    XmlAccessType value() default XmlAccessType.PUBLIC_MEMBER;
}
